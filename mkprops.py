#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that statements stay readable)."""
import json, os
P = []
def prop(id, title, statement, text, why, files, mech, over=("inputs",), observe=None):
    assert len(title) <= 80, title
    d = {"id": id, "title": title, "statement": " ".join(statement.split()),
         "quantifier": {"over": list(over), "text": " ".join(text.split())},
         "why_tests_cant": " ".join(why.split()),
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if observe: d["anchors"]["observe_at"] = observe
    P.append(d)

T = "crates/qlab-time/src/"
M = "crates/qlab-math/src/"
C = "third-parties/calendar/src/"
YC = "crates/qlab-termstructure/src/yield_curve.rs"
B = "crates/qlab-instrument/src/bond.rs"

prop("C01", "A date exists exactly for valid Gregorian year/month/day triples",
 """Constructing a date from a year, month and day succeeds exactly when the triple is a day of the
 proleptic Gregorian calendar, the date reads back the same year, month and day, and the leap-year
 query follows the 4/100/400 rule. Dates compare (==, <, <=) in chronological order.""",
 "every year -262143..262142, every u32 month and day; pairs of dates of years -9999..9999 for the order",
 "the tests construct six dates, one of them invalid, and never compare two",
 [T+"date.rs"], [("Date::from_ymd, year, month, day, leap_year, derived Ord", T+"date.rs")])
prop("C02", "Serial numbers and date differences count calendar days exactly",
 """The serial number of a date is the number of days counted from 1 January of year 1 (which is day 1),
 and subtracting one date from another gives the difference of their serial numbers, negative when
 the first date is earlier.""",
 "every date of years 1..9999 for serials; every pair of dates of years 1901..2199 for differences",
 "one serial number is tested; every day-count fraction and coupon fraction is built on the difference",
 [T+"date.rs"], [("Date::serial_date, Sub for Date", T+"date.rs")])
prop("C03", "Adding or subtracting days moves the date by exactly that many days",
 """Adding n days to a date gives the date whose serial number is n larger, subtracting n days the one
 n smaller, and successor and predecessor are inverse steps of one day. An addition or subtraction
 whose result is not representable yields nothing; it never panics or wraps.""",
 "every date of years 1901..2199 with n up to 36525; every date and every 64-bit n for the absence of panics",
 "two additions and one subtraction are tested, none across a year end or century",
 [T+"date.rs", T+"period/days.rs"], [("Date::checked_add_days, checked_sub_days, succ_opt, pred_opt", T+"date.rs")])
prop("C04", "Month and year arithmetic keeps the day, clamped to the month's end",
 """Adding or subtracting n months (or adding n years, n possibly negative) moves the year and month by exactly that amount and
 keeps the day of month, reduced only to the last day of the resulting month when that day does not
 exist. A result that is not representable yields nothing; no argument makes the operation panic or wrap.""",
 "every date of years 1901..2199, up to 2400 months and 1000 years; every 32-bit amount for the absence of panics",
 "one addition and one subtraction of months and two additions of years are tested",
 [T+"date.rs", T+"period/months.rs", T+"period/years.rs"],
 [("Date::checked_add_months, checked_sub_months, checked_add_years", T+"date.rs")])
prop("C05", "Business-day rolling implements the five market conventions exactly",
 """Rolling first adds the period (days, months or years); Unadjusted returns that date, Following the
 first business day on or after it, Preceding the first on or before it. Modified Following
 (Modified Preceding) is the Following (Preceding) date when it lies in the same month as the
 period-added date, and otherwise the Preceding (Following) date.""",
 "every start date of years 1901..2199, every calendar (the holiday pattern is arbitrary, with a business day within 6 days either side), every period type and convention",
 "no test calls it; it depends on the interplay of month ends and an arbitrary holiday pattern",
 [T+"date.rs", T+"date_rolling.rs", T+"period.rs"], [("Date::checked_roll", T+"date.rs"), ("Period::checked_add", T+"period.rs")],
 over=("inputs", "configurations"))
prop("C06", "Weekend roll sends Saturdays and Sundays to the next Monday, others nowhere",
 """Rolling a date off the weekend returns the same date from Monday to Friday and the Monday that
 follows for a Saturday or a Sunday, also across month and year ends.""",
 "every date of years 1901..2199", "three dates of one month are tested",
 [T+"date.rs"], [("Date::weekend_roll", T+"date.rs")])
prop("C07", "Every market calendar is usable through the date API unchanged",
 """For any market calendar, the business-day and holiday queries of the date API agree with the
 calendar's own answers for the same day, and a day is a holiday exactly when it is not a business day.""",
 "every date of years 1901..2199 and every calendar (arbitrary answers per day)",
 "no test uses a market calendar through the date API",
 [T+"calendar.rs", C+"lib.rs"], [("blanket impl Calendar for C", T+"calendar.rs"), ("is_holiday default", C+"lib.rs")],
 over=("inputs", "configurations"))
prop("C08", "Actual/360 and Actual/365 are the exact day difference over 360 or 365",
 """The Actual/360 (Actual/365) fraction between two dates is the exact number of days from the first to
 the second divided by 360 (365), negative when the second is earlier, so fractions over adjacent
 periods add up.""",
 "every pair of dates of years 1901..2199, in exact arithmetic",
 "one pair of dates is tested to 1e-3",
 [T+"day_count/act_360.rs", T+"day_count/act_365.rs"], [("calculate_day_count_fraction", T+"day_count.rs")])
prop("C09", "30/360 follows the 30E/360 rule for every ordered pair of dates",
 """For date1 <= date2 the 30/360 fraction is (360*(y2-y1) + 30*(m2-m1) + min(d2,30) - min(d1,30)) / 360;
 for date1 > date2 it is an error. It never panics.""",
 "every pair of dates of years 1901..2199", "one pair, starting on 1 January, is tested to 1e-3",
 [T+"day_count/thirty_360.rs"], [("Thirty360::date_diff", T+"day_count/thirty_360.rs")])
prop("C10", "Interpolators answer inside their domain and reject points outside it",
 """Each interpolator (linear, Hermite, Catmull-Rom, natural cubic) returns a value for every query
 from the first to the last abscissa, both included, an out-of-lower-bound error carrying the query below the first and an
 out-of-upper-bound error carrying the query above the last. No query, including infinities and NaN, and no list of
 points makes fitting or evaluating panic.""",
 "all knot values and queries; 0 to 5 knots in increasing order (floats incl. NaN for 2 to 4 knots)",
 "each interpolator is evaluated at a single interior point",
 [M+"interpolation.rs", M+"interpolation/linear.rs", M+"interpolation/spline/hermite.rs", M+"interpolation/spline/catmull_rom.rs", M+"interpolation/spline/natural_cubic.rs"],
 [("find_index_at_left_boundary", M+"interpolation.rs")])
prop("C11", "Fitting rejects unsorted points and too few points for a spline",
 """Fitting any interpolator to points one of whose abscissae is smaller than the one before fails with
 the point-order error, and fitting a Hermite, Catmull-Rom or natural cubic spline to fewer than three points fails
 with the insufficient-points error carrying their number. Fitting three or more (two or more for linear) points in strictly
 increasing order succeeds.""",
 "all knot values, 0 to 5 points",
 "no test fits invalid points",
 [M+"interpolation/linear.rs", M+"interpolation/spline/hermite.rs", M+"interpolation/spline/catmull_rom.rs", M+"interpolation/spline/natural_cubic.rs"],
 [("try_fit / try_new validation", M+"interpolation.rs")])
prop("C12", "Linear interpolation is the straight line through the neighbouring points",
 """Between two neighbouring knots the linear interpolator returns exactly the straight line through
 them, so it reproduces every knot value and never leaves the range of the two neighbouring values.""",
 "all knot values, widths and queries in exact arithmetic; 2 to 6 knots",
 "one doc example at a midpoint", [M+"interpolation/linear.rs", M+"interpolation.rs"], [("Linear::try_value", M+"interpolation/linear.rs")])
prop("C13", "Hermite spline matches given values and slopes and reproduces cubics",
 """On each interval the Hermite spline is the unique cubic with the given values and slopes at both ends:
 it reproduces every knot value and slope (so the curve is continuously differentiable) and any cubic
 polynomial whose values and slopes it is given.""",
 "all knot values, slopes, widths and queries in exact arithmetic; 3 to 5 knots",
 "no test exercises the Hermite spline", [M+"interpolation/spline/hermite.rs"], [("Hermite::try_value", M+"interpolation/spline/hermite.rs")])
prop("C14", "Catmull-Rom spline passes through its points smoothly",
 """The Catmull-Rom spline passes through every point, is continuously differentiable at every interior
 knot with the slope of the chord joining the two neighbours, is a cubic on each segment starting and ending the
 curve with the slope of the first and last chord, and so reproduces straight lines.""",
 "all knot values, widths and queries in exact arithmetic; 3 to 6 knots",
 "one query on three collinear, equally spaced points is tested",
 [M+"interpolation/spline/catmull_rom.rs"], [("CatmullRom::try_value", M+"interpolation/spline/catmull_rom.rs")])
prop("C15", "Natural cubic spline is the natural interpolating C2 cubic spline",
 """The natural cubic spline passes through every point, is a cubic on each interval, has continuous first
 and second derivatives at every interior knot and zero second derivative at both ends; fitting never
 divides by zero for strictly increasing abscissae.""",
 "all knot values and queries in exact arithmetic; all widths for 3 and 4 knots, several fixed uneven grids for up to 8",
 "one query on three collinear points is tested (where any wrong second derivative is zero)",
 [M+"interpolation/spline/natural_cubic.rs", M+"linear_algebra/tridiagonal_matrix.rs"],
 [("NaturalCubic::try_fit, try_value", M+"interpolation/spline/natural_cubic.rs"), ("Thomas algorithm", M+"linear_algebra/tridiagonal_matrix.rs")])
prop("C16", "Discount factors are exp(t1*y1 - t2*y2) and refuse reversed or past dates",
 """For settlement <= d1 <= d2 the discount factor is exp(t1*y(t1) - t2*y(t2)) with t the day-count
 fraction from settlement and y the fitted yield curve, which from settlement is exp(-t2*y(t2)) without
 needing y at zero. d2 < d1 or a date before settlement is an error, as is any failure of the
 interpolation or day count; consequently DF(settle,d1)*DF(d1,d2) = DF(settle,d2).""",
 "every settlement, d1, d2, every day-count and every curve (arbitrary, possibly failing)",
 "a single pair of dates on a flat curve whose tolerance is never reached",
 [YC], [("YieldCurve::discount_factor", YC)])
prop("C17", "A yield curve is fitted to exactly the given maturities and yields",
 """Building a yield curve from maturities and yields of different lengths is an error; otherwise the
 interpolator is fitted exactly to the pairs (day-count fraction from settlement to the i-th maturity, i-th yield) in the
 given order, and failures of the day count or the fit are reported as errors.""",
 "every settlement date, up to 3 maturities and yields, every day-count and interpolator",
 "one curve with one maturity and an interpolator that ignores its input",
 [YC], [("YieldCurve::new", YC)])
prop("C18", "Bond coupons fall due on the regular schedule and pay on business days",
 """A bond's coupons fall due at the first coupon date and every coupon period after it (counted from the
 first coupon date, so month-end dates do not drift) up to the penultimate coupon date, plus one final
 payment at maturity; each coupon is paid on its due date rolled off the weekend, the final one at maturity.
 No arguments make construction panic.""",
 "bonds of 1 to 5 (thorough: 10) regular coupons anchored at month ends, leap days and mid-month dates, with every issue, maturity and settlement date near them; the schedule of one coupon for every date of years 1901..2199; construction for every four dates (at most one coupon)",
 "one bond is valued and its value only printed",
 [B, T+"date.rs"], [("Bond::new", B)])
prop("C19", "Bond payments are regular coupons, prorated stubs and face at maturity",
 """Every regular coupon is rate*face/frequency; a short first (last) period pays the coupon times actual days
 over days of the regular period it lies in, a long one adds to the regular coupon the same fraction of the regular period
 before (after) it; the maturity payment is face plus the last coupon.""",
 "bonds anchored at given first and penultimate coupon dates (month end, leap day, late year), every issue and maturity date within three years of them, rate and face arbitrary (exact arithmetic)",
 "one bond is valued and its value only printed",
 [B], [("Bond::first_cash_flow, final_cash_flow", B)])
prop("C20", "A bond's value is the discounted sum of the payments due after settlement",
 """The discounted value is the sum over exactly the payments due after the settlement date of payment times
 discount factor from settlement to its payment date; payments due on or before settlement
 contribute nothing, and a failing discount factor is an error.""",
 "bonds of four payments; every settlement date, every curve reference date, every pattern of failing dates and discount factors 0, 1 or 2 per payment (the value is linear in them)",
 "the only valuation test asserts nothing about the value",
 [B], [("Bond::discounted_value", B)])
prop("C21", "Easter Monday tables agree with the Gregorian and Julian computus",
 """For every year 1901 to 2199 the Easter Monday used by western calendars is the day of year after
 Easter Sunday of the Gregorian computus, and the Orthodox one the day after Easter Sunday of the
 Julian computus expressed in the Gregorian calendar.""",
 "every year 1901..2199", "calendar tests cover the single year 2023",
 [C+"lib.rs"], [("EASTER_MONDAY, ORTHODOX_EASTER_MONDAY tables", C+"lib.rs")])
prop("C22", "Calendar helpers: weekends, month ends, joint calendars",
 """Weekend days are Saturday and Sunday; the last day of the month is the month's last calendar day and
 the end of month the last business day on or before it; a joint calendar is open exactly when both of its
 calendars are. A weekends-only calendar closes exactly on weekends.""",
 "every date of years 1901..2199, every calendar (arbitrary holiday pattern)",
 "no test calls these helpers",
 [C+"lib.rs", C+"jointcalendar.rs", C+"weekendsonly.rs"], [("last_day_of_month, end_of_month, is_weekend", C+"lib.rs"), ("JointCalendar", C+"jointcalendar.rs")],
 over=("inputs", "configurations"))
prop("C23", "Business days between two dates are counted exactly",
 """The number of business days between two dates counts the business days from the first (included by
 default, or excluded on request) to the last (excluded by default, or included on request); it is zero, not a panic, on an
 empty range, and exchanging the dates negates it.""",
 "every date of years 1901..2199 with the dates up to two days after it, and ranges of up to 9 days in both orders from month and year ends; every calendar and both flags",
 "one pair of dates, starting on a holiday so that including the first day makes no difference",
 [C+"lib.rs"], [("business_days_between", C+"lib.rs")], over=("inputs", "configurations"))

def region(id, title, markets, files):
    prop(id, title,
     f"""For {markets}, a day is a business day exactly when it is not a weekend day of that market and not
     one of the holidays the calendar documents: fixed-date holidays with their documented weekend
     shifts, Easter-based and n-th-weekday holidays, each within its documented years, and the documented one-off
     closings and openings.""",
     "every day of years 1901..2199, every listed market",
     "tests check only the days of 2023 (and not every market)",
     [C+f+".rs" for f in files.split()], [("is_business_day", C+f+".rs") for f in files.split()], over=("inputs", "configurations"))
region("C24", "Western European calendars follow their documented holiday rules",
 "TARGET, Germany, France, Italy, Austria, Switzerland and the United Kingdom", "target germany france italy austria switzerland unitedkingdom")
region("C25", "Nordic and Eastern European calendars follow their documented rules",
 "Denmark, Finland, Iceland, Norway, Sweden, the Czech Republic, Hungary, Poland, Romania, Slovakia, Russia and Ukraine",
 "denmark finland iceland norway sweden czechrepublic hungary poland romania slovakia russia ukraine")
region("C26", "American calendars follow their documented holiday rules",
 "the United States (all markets), Canada, Mexico, Brazil, Argentina and Chile", "unitedstates canada mexico brazil argentina chile")
region("C27", "East Asian calendars follow their documented holiday rules",
 "Japan, China, Hong Kong, Taiwan and South Korea", "japan china hongkong taiwan southkorea")
region("C28", "South and South-East Asian calendars follow their documented rules",
 "India, Indonesia, Singapore and Thailand", "india indonesia singapore thailand")
region("C29", "Oceanian, African and Middle Eastern calendars follow their rules",
 "Australia, New Zealand, South Africa, Botswana, Israel and Turkey", "australia newzealand southafrica botswana israel turkey")

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
