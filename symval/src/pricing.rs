//! C16, C17, C19, C20: curves and bonds over symbolic amounts. Dates are given
//! (the Kani harnesses have them arbitrary); day-count fractions, yields,
//! rates, face values and discount factors are any reals.
use crate::rat::Rat;
use crate::sym::{exp, explore, ln, model, sat, sat_identity, Cond, End, Sym, A};
use crate::{possible, Ctx};
use qlab_error::{ComputeError, InterpolationError, QLabResult};
use qlab_instrument::bond::Bond;
use qlab_math::interpolation::linear::Linear;
use qlab_math::interpolation::Interpolator;
use qlab_math::value::Value;
use qlab_termstructure::yield_curve::YieldCurve;
use qlab_time::date::Date;
use qlab_time::day_count::{act_365::Act365, DayCount};
use qlab_time::frequency::Frequency;
use serde_json::json;
use std::any::Any;
use std::cell::RefCell;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

type Ymd = (i32, u32, u32);
fn date(d: Ymd) -> Date {
    Date::from_ymd(d.0, d.1, d.2).expect("unsupported: date")
}
fn ymd(d: Date) -> Ymd {
    (d.year(), d.month(), d.day())
}
fn label(d: Ymd) -> String {
    format!("{}-{:02}-{:02}", d.0, d.1, d.2)
}

#[derive(Default)]
struct World {
    settle: Ymd,
    /// Values of the variables in a native run.
    values: HashMap<String, f64>,
    no_fraction: Vec<Ymd>,
    no_yield: Vec<Ymd>,
    no_fit: bool,
    asked: usize,
    fitted: Option<Box<dyn Any>>,
}
thread_local! { static WORLD: RefCell<World> = RefCell::new(World::default()); }
fn world<R>(f: impl FnOnce(&mut World) -> R) -> R {
    WORLD.with(|w| f(&mut w.borrow_mut()))
}
/// The variable, or in a native run its value.
fn get<V: 'static + Copy>(name: &str) -> V {
    let s: Box<dyn Any> = if std::any::TypeId::of::<V>() == std::any::TypeId::of::<Sym>() {
        Box::new(Sym::var(name))
    } else {
        Box::new(world(|w| w.values.get(name).copied().unwrap_or(0.5)))
    };
    *s.downcast_ref::<V>().expect("unsupported: number type")
}

/// Any day count: its answers are unrelated variables, or failures.
#[derive(Clone, Copy)]
struct AnyCount;
impl DayCount for AnyCount {
    fn calculate_day_count_fraction<V: Value>(a: Date, b: Date) -> QLabResult<V> {
        let (a, b) = (ymd(a), ymd(b));
        if world(|w| w.no_fraction.contains(&b)) {
            return Err(ComputeError::ZeroDivisionError.into());
        }
        if a == b {
            return Ok(V::zero());
        }
        Ok(if a == world(|w| w.settle) { get(&format!("t {}", label(b))) } else { get(&format!("t {} to {}", label(a), label(b))) })
    }
}
/// Any fitted curve: the yield at the time of a date is a variable.
struct AnyCurve<V>(std::marker::PhantomData<V>);
impl<V> Default for AnyCurve<V> {
    fn default() -> Self {
        AnyCurve(std::marker::PhantomData)
    }
}
thread_local! { static DATES: RefCell<Vec<Ymd>> = const { RefCell::new(vec![]) }; }
impl<V: Value> Interpolator for AnyCurve<V> {
    type Value = V;
    fn try_fit(self, p: &[(V, V)]) -> Result<Self, InterpolationError<V>> {
        world(|w| w.fitted = Some(Box::new(p.to_vec())));
        if world(|w| w.no_fit) {
            return Err(InterpolationError::PointOrderError);
        }
        Ok(self)
    }
    fn try_value(&self, t: V) -> Result<V, InterpolationError<V>> {
        let dates = DATES.with(|d| d.borrow().clone());
        let s = world(|w| w.settle);
        for d in dates {
            let td: V = if d == s { V::zero() } else { get(&format!("t {}", label(d))) };
            if same(t, td) {
                if world(|w| w.no_yield.contains(&d)) {
                    return Err(InterpolationError::OutOfUpperBound(t));
                }
                return Ok(get(&format!("y {}", label(d))));
            }
        }
        let k = world(|w| {
            w.asked += 1;
            w.asked
        });
        Ok(get(&format!("y elsewhere {k}")))
    }
}
/// Terms are compared as polynomials, numbers by value.
fn same<V: Value>(a: V, b: V) -> bool {
    match ((&a as &dyn Any).downcast_ref::<Sym>(), (&b as &dyn Any).downcast_ref::<Sym>()) {
        (Some(&a), Some(&b)) => equal(a, b),
        _ => a == b,
    }
}
fn equal(a: Sym, b: Sym) -> bool {
    match (a - b).as_const() {
        Some(r) => r.n == 0,
        None => !sat_identity(Sym::ne(a, b)),
    }
}
fn values(m: &[(String, Rat)]) -> HashMap<String, f64> {
    m.iter().map(|(n, r)| (n.clone(), r.f64())).collect()
}
fn natively<R>(m: &[(String, Rat)], f: impl Fn() -> R) -> Result<R, ()> {
    world(|w| {
        w.values = values(m);
        w.asked = 0;
    });
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| ())
}
fn off(got: f64, want: f64) -> bool {
    !((got - want).abs() <= 1e-9 * want.abs().max(1.0))
}

// -------------------------------------------------------------- curve (C16)
struct Df {
    settle: Ymd,
    d1: Ymd,
    d2: Ymd,
    no_fraction: Vec<Ymd>,
    no_yield: Vec<Ymd>,
    fails: bool,
}
fn factor<V: Value>(c: &Df) -> QLabResult<V> {
    YieldCurve::<AnyCount, AnyCurve<V>>::new(date(c.settle), &[], &[])?.discount_factor(date(c.d1), date(c.d2))
}
fn factors(cx: &mut Ctx, c: &Df) {
    world(|w| {
        *w = World { settle: c.settle, no_fraction: c.no_fraction.clone(), no_yield: c.no_yield.clone(), ..World::default() }
    });
    DATES.with(|d| *d.borrow_mut() = vec![c.settle, c.d1, c.d2]);
    let v = |k: &str, d: Ymd| if k == "t" && d == c.settle { Sym::i(0) } else { Sym::var(&format!("{k} {}", label(d))) };
    let (t1, t2) = (v("t", c.d1), v("t", c.d2));
    // The yield is a function of time: dates at distinct times.
    let mut assume = vec![];
    for (a, b) in [(c.settle, c.d1), (c.settle, c.d2), (c.d1, c.d2)] {
        if a != b {
            assume.push(Sym::ne(v("t", a), v("t", b)));
        }
    }
    let want = if c.d1 == c.settle { -t2 * v("y", c.d2) } else { t1 * v("y", c.d1) - t2 * v("y", c.d2) };
    let tag = format!("discount factor {} to {}, settlement {}{}", label(c.d1), label(c.d2), label(c.settle),
        if c.no_fraction.is_empty() && c.no_yield.is_empty() { "" } else { ", with failures" });
    let paths = explore(&assume, || {
        world(|w| w.asked = 0);
        factor::<Sym>(c)
    });
    assert!(!paths.is_empty(), "unsupported: no path");
    cx.samples.push(format!("{tag}: {} paths", paths.len()));
    for p in &paths {
        let m = match &p.end {
            End::Value(Err(_)) if c.fails => {
                cx.obligations += 1;
                cx.discharged += 1;
                None
            }
            End::Value(Ok(v)) if !c.fails => match ln(*v) {
                Some(got) => {
                    cx.obligations += 1;
                    let mut q = p.cond.clone();
                    q.push(Sym::ne(got, want));
                    if !equal(got, want) && sat(&q) {
                        Some(model(&q))
                    } else {
                        cx.discharged += 1;
                        None
                    }
                }
                None => possible(cx, &p.cond, &[]),
            },
            _ => possible(cx, &p.cond, &[]),
        };
        let Some(m) = m else { continue };
        let got = natively(&m, || factor::<f64>(c));
        let val = values(&m);
        let g = |k: &str, d: Ymd| if k == "t" && d == c.settle { 0.0 } else { val.get(&format!("{k} {}", label(d))).copied().unwrap_or(0.5) };
        let w = if c.d1 == c.settle { (-g("t", c.d2) * g("y", c.d2)).exp() } else { (g("t", c.d1) * g("y", c.d1) - g("t", c.d2) * g("y", c.d2)).exp() };
        let (wrong, shown) = match &got {
            Err(()) => (true, "panic".to_string()),
            Ok(Err(e)) => (!c.fails, format!("error {e}")),
            Ok(Ok(v)) => (c.fails || off(*v, w), format!("{v}")),
        };
        let want = if c.fails { "an error".to_string() } else { format!("{w}") };
        assert!(wrong, "unsupported: counterexample did not reproduce: {tag} {val:?} gives {shown}, expected {want}");
        cx.violation = Some(json!({"what": tag, "values": val, "expected": want, "real_code_f64": shown}));
        return;
    }
}
/// The real linear curve over Act/365: yields any reals.
fn linear_curve<V: Value>(settle: Ymd, mats: &[Ymd], d1: Ymd, d2: Ymd) -> QLabResult<V> {
    let m: Vec<Date> = mats.iter().map(|&d| date(d)).collect();
    let y: Vec<V> = mats.iter().map(|&d| get(&format!("y {}", label(d)))).collect();
    YieldCurve::<Act365, Linear<V>>::new(date(settle), &m, &y)?.discount_factor(date(d1), date(d2))
}
fn years(a: Ymd, b: Ymd) -> Rat {
    Rat::new((serial(b) - serial(a)) as i128, 365)
}
/// `t * y(t)` on the polygon through the given yields.
fn on_polygon(settle: Ymd, mats: &[Ymd], d: Ymd) -> Sym {
    let t = years(settle, d);
    let y = |d: Ymd| Sym::var(&format!("y {}", label(d)));
    for w in mats.windows(2) {
        if w[0] <= d && d <= w[1] {
            let (a, b) = (years(settle, w[0]), years(settle, w[1]));
            let f = Sym::c(t.add(a.neg()).mul(b.add(a.neg()).inv()));
            return Sym::c(t) * (y(w[0]) * (Sym::i(1) - f) + y(w[1]) * f);
        }
    }
    panic!("unsupported: outside the curve")
}
fn composed(cx: &mut Ctx, settle: Ymd, mats: &[Ymd], d1: Ymd, d2: Ymd) {
    world(|w| *w = World { settle, ..World::default() });
    let want = on_polygon(settle, mats, d1) - on_polygon(settle, mats, d2);
    let tag = format!("Act/365 linear curve from {} over {} points: {} to {}", label(settle), mats.len(), label(d1), label(d2));
    for p in &explore(&[], || linear_curve::<Sym>(settle, mats, d1, d2)) {
        cx.samples.push(tag.clone());
        let m = match &p.end {
            End::Value(Ok(v)) => match ln(*v) {
                Some(got) => {
                    cx.obligations += 1;
                    let mut q = p.cond.clone();
                    q.push(Sym::ne(got, want));
                    if !equal(got, want) && sat(&q) {
                        Some(model(&q))
                    } else {
                        cx.discharged += 1;
                        None
                    }
                }
                None => possible(cx, &p.cond, &[]),
            },
            _ => possible(cx, &p.cond, &[]),
        };
        let Some(m) = m else { continue };
        let got = natively(&m, || linear_curve::<f64>(settle, mats, d1, d2));
        let w = number(want, &m).exp();
        report(cx, tag, values(&m), got, w);
        return;
    }
}
/// A term over the yields at the model's values.
fn number(t: Sym, m: &[(String, Rat)]) -> f64 {
    let mut t = t;
    for (n, r) in m {
        t = t.at(Sym::var(n), *r);
    }
    t.as_const().expect("unsupported: reference").f64()
}
fn report(cx: &mut Ctx, tag: String, val: HashMap<String, f64>, got: Result<QLabResult<f64>, ()>, w: f64) {
    let (wrong, shown) = match &got {
        Err(()) => (true, "panic".to_string()),
        Ok(Err(e)) => (true, format!("error {e}")),
        Ok(Ok(v)) => (off(*v, w), format!("{v}")),
    };
    assert!(wrong, "unsupported: counterexample did not reproduce: {tag} {val:?} gives {shown}, expected {w}");
    cx.violation = Some(json!({"what": tag, "values": val, "expected": w, "real_code_f64": shown}));
}

pub fn curve(cx: &mut Ctx) {
    let (s, a, b, p) = ((2024, 2, 29), (2024, 8, 31), (2031, 1, 1), (2024, 2, 28));
    let mut cs = vec![];
    let mut c = |d1, d2, nf: &[Ymd], ny: &[Ymd], fails| cs.push(Df { settle: s, d1, d2, no_fraction: nf.to_vec(), no_yield: ny.to_vec(), fails });
    for (d1, d2) in [(s, s), (s, a), (s, b), (a, a), (a, b)] {
        c(d1, d2, &[], &[], false);
    }
    for (d1, d2) in [(a, s), (b, a), (p, s), (p, a), (p, p), (s, p)] {
        c(d1, d2, &[], &[], true);
    }
    c(s, a, &[], &[s], false);
    c(s, b, &[], &[a], false);
    c(s, b, &[], &[b], true);
    c(a, b, &[], &[a], true);
    c(a, b, &[], &[b], true);
    c(s, b, &[b], &[], true);
    c(a, b, &[a], &[], true);
    c(a, b, &[b], &[], true);
    for c in &cs {
        if cx.violation.is_none() {
            factors(cx, c);
        }
    }
    let mats = [s, (2024, 6, 1), (2026, 3, 15), (2031, 1, 1)];
    for (d1, d2) in [(s, (2024, 3, 1)), (s, (2026, 3, 15)), ((2024, 5, 31), (2030, 12, 31)), ((2025, 1, 1), (2031, 1, 1)), ((2027, 7, 7), (2027, 7, 7))] {
        if cx.violation.is_none() {
            composed(cx, s, &mats, d1, d2);
        }
    }
}

// ---------------------------------------------------------------- fit (C17)
struct Fit {
    settle: Ymd,
    mats: Vec<Ymd>,
    yields: usize,
    no_fraction: Vec<Ymd>,
    no_fit: bool,
}
fn fit<V: Value>(c: &Fit) -> QLabResult<Option<Vec<(V, V)>>> {
    let m: Vec<Date> = c.mats.iter().map(|&d| date(d)).collect();
    let y: Vec<V> = (0..c.yields).map(|i| get(&format!("yield {i}"))).collect();
    world(|w| w.fitted = None);
    YieldCurve::<AnyCount, AnyCurve<V>>::new(date(c.settle), &m, &y)?;
    Ok(world(|w| w.fitted.take()).and_then(|f| f.downcast_ref::<Vec<(V, V)>>().cloned()))
}
fn fits(cx: &mut Ctx, c: &Fit) {
    world(|w| *w = World { settle: c.settle, no_fraction: c.no_fraction.clone(), no_fit: c.no_fit, ..World::default() });
    let fails = c.mats.len() != c.yields || c.no_fit || c.mats.iter().any(|m| c.no_fraction.contains(m));
    let tag = format!("curve from {} of {} maturities and {} yields{}", label(c.settle), c.mats.len(), c.yields, if c.no_fit || !c.no_fraction.is_empty() { ", with a failure" } else { "" });
    let t = |d: Ymd| if d == c.settle { Sym::i(0) } else { Sym::var(&format!("t {}", label(d))) };
    let paths = explore(&[], || fit::<Sym>(c));
    assert!(!paths.is_empty(), "unsupported: no path");
    cx.samples.push(format!("{tag}: {} paths", paths.len()));
    for p in &paths {
        let m = match &p.end {
            End::Value(Err(_)) if fails => {
                cx.obligations += 1;
                cx.discharged += 1;
                None
            }
            End::Value(Ok(Some(v))) if !fails && v.len() == c.mats.len() => {
                let bad: Vec<Cond> = v
                    .iter()
                    .enumerate()
                    .flat_map(|(i, &(a, b))| [(a, t(c.mats[i])), (b, Sym::var(&format!("yield {i}")))])
                    .filter(|&(a, b)| !equal(a, b))
                    .map(|(a, b)| Sym::ne(a, b))
                    .collect();
                if bad.is_empty() {
                    cx.obligations += 1;
                    cx.discharged += 1;
                    None
                } else {
                    possible(cx, &p.cond, &[Cond::Any(bad)])
                }
            }
            _ => possible(cx, &p.cond, &[]),
        };
        let Some(m) = m else { continue };
        let got = natively(&m, || fit::<f64>(c));
        let val = values(&m);
        let g = |n: String| val.get(&n).copied().unwrap_or(0.5);
        let want: Vec<(f64, f64)> = c.mats.iter().enumerate().map(|(i, &d)| (if d == c.settle { 0.0 } else { g(format!("t {}", label(d))) }, g(format!("yield {i}")))).collect();
        let (wrong, shown) = match &got {
            Err(()) => (true, "panic".to_string()),
            Ok(Err(e)) => (!fails, format!("error {e}")),
            Ok(Ok(v)) => (fails || v.as_ref() != Some(&want), format!("fitted to {v:?}")),
        };
        let want = if fails { "an error".to_string() } else { format!("fitted to {want:?}") };
        assert!(wrong, "unsupported: counterexample did not reproduce: {tag} {val:?} gives {shown}, expected {want}");
        cx.violation = Some(json!({"what": tag, "values": val, "expected": want, "real_code_f64": shown}));
        return;
    }
}
pub fn fitting(cx: &mut Ctx) {
    let s = (2023, 12, 31);
    let all = [(2024, 3, 31), s, (2031, 1, 1), (2024, 1, 1), (2029, 2, 28), (2023, 6, 30)];
    let mut run = |c: Fit| {
        if cx.violation.is_none() {
            fits(cx, &c);
        }
    };
    for n in 0..=6 {
        for k in 0..=6 {
            run(Fit { settle: s, mats: all[..n].to_vec(), yields: k, no_fraction: vec![], no_fit: false });
        }
        run(Fit { settle: s, mats: all[..n].to_vec(), yields: n, no_fraction: vec![], no_fit: true });
        for j in 0..n {
            run(Fit { settle: s, mats: all[..n].to_vec(), yields: n, no_fraction: vec![all[j]], no_fit: false });
        }
    }
    // The same date twice.
    run(Fit { settle: s, mats: vec![all[0], all[0], all[2]], yields: 3, no_fraction: vec![], no_fit: false });
}

// -------------------------------------------------------------- bonds (C19, C20)
fn leap(y: i32) -> bool {
    y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)
}
fn length(y: i32, m: u32) -> u32 {
    match m {
        2 => 28 + leap(y) as u32,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}
fn serial(d: Ymd) -> i64 {
    let y = d.0 as i64 - 1;
    365 * y + y / 4 - y / 100 + y / 400 + (1..d.1).map(|m| length(d.0, m) as i64).sum::<i64>() + d.2 as i64
}
fn plus(d: Ymd, n: i32) -> Ymd {
    let k = d.0 * 12 + d.1 as i32 - 1 + n;
    let (y, m) = (k.div_euclid(12), k.rem_euclid(12) as u32 + 1);
    (y, m, d.2.min(length(y, m)))
}
fn next(d: Ymd) -> Ymd {
    if d.2 < length(d.0, d.1) {
        (d.0, d.1, d.2 + 1)
    } else {
        let k = plus((d.0, d.1, 1), 1);
        (k.0, k.1, 1)
    }
}
fn rolled(mut d: Ymd) -> Ymd {
    // day 1 is a Monday
    while (serial(d) - 1).rem_euclid(7) > 4 {
        d = next(d);
    }
    d
}
#[derive(Clone)]
struct Terms {
    issue: Ymd,
    first: Ymd,
    penult: Ymd,
    maturity: Ymd,
}
/// (due, paid, multiple of rate * face, face paid)
fn payments(t: &Terms) -> Vec<(Ymd, Ymd, Rat, bool)> {
    let q = |a: Ymd, b: Ymd| serial(b) - serial(a);
    let half = |n: i64, d: i64| Rat::new(n as i128, 2 * d as i128);
    let mut v = vec![];
    let mut k = 0;
    while plus(t.first, k) <= t.penult {
        v.push((plus(t.first, k), rolled(plus(t.first, k)), Rat::new(1, 2), false));
        k += 6;
    }
    let before = plus(t.first, -6);
    v[0].2 = if t.issue >= before {
        half(q(t.issue, t.first), q(before, t.first))
    } else {
        Rat::new(1, 2).add(half(q(t.issue, before), q(plus(before, -6), before)))
    };
    let after = plus(t.penult, 6);
    let c = if t.maturity <= after {
        half(q(t.penult, t.maturity), q(t.penult, after))
    } else {
        Rat::new(1, 2).add(half(q(after, t.maturity), q(after, plus(after, 6))))
    };
    v.push((t.maturity, t.maturity, c, true));
    v
}
fn value<V: Value, I: Interpolator<Value = V>, D: DayCount>(t: &Terms, at: Ymd, curve: &YieldCurve<D, I>) -> QLabResult<V> {
    let b = Bond::<V>::new("bond", date(t.issue), date(t.first), date(t.penult), date(t.maturity), Frequency::SA, get("rate"), get("face"));
    b.expect("the bond is refused").discounted_value(date(at), curve)
}
fn on_any_curve<V: Value>(t: &Terms, at: Ymd) -> QLabResult<V> {
    world(|w| w.asked = 0);
    value(t, at, &YieldCurve::<AnyCount, AnyCurve<V>>::new(date(at), &[], &[])?)
}
fn on_linear<V: Value>(t: &Terms, at: Ymd, mats: &[Ymd]) -> QLabResult<V> {
    let m: Vec<Date> = mats.iter().map(|&d| date(d)).collect();
    let y: Vec<V> = mats.iter().map(|&d| get(&format!("y {}", label(d)))).collect();
    value(t, at, &YieldCurve::<Act365, Linear<V>>::new(date(at), &m, &y)?)
}
fn bond(cx: &mut Ctx, t: &Terms, at: Ymd, mats: Option<&[Ymd]>) {
    world(|w| *w = World { settle: at, ..World::default() });
    let due: Vec<_> = payments(t).into_iter().filter(|p| at < p.0).collect();
    DATES.with(|d| *d.borrow_mut() = due.iter().map(|p| p.1).collect());
    let (rate, face) = (Sym::var("rate"), Sym::var("face"));
    let tag = format!("bond {} {} {} {} settled {}{}", label(t.issue), label(t.first), label(t.penult), label(t.maturity), label(at), if mats.is_some() { " on an Act/365 linear curve" } else { "" });
    let arg = |d: Ymd| match mats {
        None if d == at => Sym::i(0),
        None => -Sym::var(&format!("t {}", label(d))) * Sym::var(&format!("y {}", label(d))),
        Some(m) => -on_polygon(at, m, d),
    };
    let mut assume = vec![];
    if mats.is_none() {
        for (i, p) in due.iter().enumerate() {
            for q in &due[..i] {
                if p.1 != q.1 {
                    assume.push(Sym::ne(Sym::var(&format!("t {}", label(p.1))), Sym::var(&format!("t {}", label(q.1)))));
                }
            }
            assume.push(Sym::ne(Sym::var(&format!("t {}", label(p.1))), Sym::i(0)));
        }
    }
    let paths = explore(&assume, || match mats {
        None => on_any_curve::<Sym>(t, at),
        Some(m) => on_linear::<Sym>(t, at, m),
    });
    assert!(!paths.is_empty(), "unsupported: no path");
    A.with(|a| a.borrow_mut().path.clear());
    let amount = |c: Rat, f: bool| Sym::c(c) * rate * face + if f { face } else { Sym::i(0) };
    let want = due.iter().fold(Sym::i(0), |s, p| s + amount(p.2, p.3) * exp(arg(p.1)));
    cx.samples.push(format!("{tag}: {} payments, {} paths", due.len(), paths.len()));
    for p in &paths {
        let m = match &p.end {
            End::Value(Ok(v)) => {
                cx.obligations += 1;
                let mut q = p.cond.clone();
                q.push(Sym::ne(*v, want));
                if !equal(*v, want) && sat(&q) {
                    Some(model(&q))
                } else {
                    cx.discharged += 1;
                    None
                }
            }
            _ => possible(cx, &p.cond, &[]),
        };
        let Some(m) = m else { continue };
        // The solver chose discount factors; yields which give them, or else
        // the model's own times and yields, or some which differ everywhere.
        let mut tries = vec![];
        let key = |k: &str, d: Ymd| format!("{k} {}", label(d));
        if mats.is_none() {
            let mut v = values(&m);
            for p in &due {
                let f = number(exp(arg(p.1)), &m);
                let time = v.get(&key("t", p.1)).copied().unwrap_or(1.0);
                v.insert(key("y", p.1), if f > 0.0 { -f.ln() / time } else { 0.1 });
            }
            tries.push(v.clone());
            for (i, p) in due.iter().enumerate() {
                v.insert(key("t", p.1), i as f64 + 1.0);
                v.insert(key("y", p.1), [0.1, -0.1, 0.2, 0.3][i % 4] / (i as f64 + 1.0));
            }
            tries.push(v);
        } else {
            tries.push(values(&m));
        }
        let mut last = None;
        for v in tries {
            world(|w| {
                w.values = v.clone();
                w.asked = 0;
            });
            let got = catch_unwind(AssertUnwindSafe(|| match mats {
                None => on_any_curve::<f64>(t, at),
                Some(k) => on_linear::<f64>(t, at, k),
            }))
            .map_err(|_| ());
            let g = |n: &str| v.get(n).copied().unwrap_or(0.5);
            let factor = |d: Ymd| match mats {
                None if d == at => 1.0,
                None => (-g(&key("t", d)) * g(&key("y", d))).exp(),
                Some(_) => number(arg(d), &m).exp(),
            };
            let w = due.iter().map(|p| (p.2.f64() * g("rate") * g("face") + if p.3 { g("face") } else { 0.0 }) * factor(p.1)).sum();
            let differs = !matches!(&got, Ok(Ok(v)) if !off(*v, w));
            last = Some((v, got, w));
            if differs {
                break;
            }
        }
        let (v, got, w) = last.expect("unsupported: no replay");
        report(cx, tag, v, got, w);
        return;
    }
}
pub fn bonds(cx: &mut Ctx) {
    let t = |issue, first, penult, maturity| Terms { issue, first, penult, maturity };
    let list = [
        // regular; month ends; weekends
        t((2022, 10, 29), (2023, 4, 29), (2023, 10, 29), (2024, 4, 29)),
        t((2022, 8, 31), (2023, 2, 28), (2024, 2, 28), (2024, 8, 28)),
        t((2023, 8, 31), (2024, 2, 29), (2025, 8, 29), (2026, 2, 28)),
        // short and long first periods
        t((2023, 1, 10), (2023, 5, 15), (2024, 5, 15), (2024, 11, 15)),
        t((2022, 3, 1), (2023, 5, 15), (2024, 5, 15), (2024, 11, 15)),
        t((2022, 11, 14), (2023, 5, 15), (2023, 5, 15), (2023, 11, 15)),
        // short and long last periods
        t((2022, 6, 30), (2022, 12, 30), (2023, 6, 30), (2023, 7, 4)),
        t((2022, 6, 30), (2022, 12, 30), (2023, 6, 30), (2024, 5, 5)),
        t((2022, 6, 30), (2022, 12, 30), (2023, 7, 29), (2024, 2, 29)),
        // both
        t((2021, 12, 24), (2022, 9, 17), (2022, 9, 17), (2023, 8, 19)),
    ];
    for b in &list {
        let mut at = vec![b.issue, b.first, b.penult, plus(b.maturity, -1), b.maturity];
        at.dedup();
        for d in at {
            if cx.violation.is_none() {
                bond(cx, b, d, None);
            }
        }
    }
    for b in &list[..if cx.tier { list.len() } else { 4 }] {
        if cx.violation.is_none() {
            let mats = [b.issue, plus(b.issue, 9), plus(b.issue, 20), plus(b.maturity, 30)];
            bond(cx, b, b.issue, Some(&mats));
        }
    }
}
