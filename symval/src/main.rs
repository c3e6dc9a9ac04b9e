//! symval PROPERTY TIER KNOWN_FINDINGS.json OUT.json
//! Decides C10..C15 by running the repository's generic interpolation code on
//! symbolic numbers and asking Z3 about every path.
mod pricing;
mod rat;
mod sym;
mod z3;
use qlab_error::InterpolationError as E;
use qlab_math::interpolation::linear::Linear;
use qlab_math::interpolation::spline::{catmull_rom::CatmullRom, hermite::Hermite, natural_cubic::NaturalCubic};
use qlab_math::interpolation::Interpolator;
use qlab_math::value::Value;
use rat::Rat;
use serde_json::{json, Value as J};
use std::panic::{catch_unwind, AssertUnwindSafe};
use sym::{explore, model, sat, sat_identity, Cond, End, Rel, Sym, A};

#[derive(Clone, Copy, PartialEq, Debug)]
enum W {
    Linear,
    Hermite,
    CatmullRom,
    NaturalCubic,
}
use W::*;
impl W {
    fn min(self) -> usize {
        if self == Linear { 2 } else { 3 }
    }
}
enum Out<V> {
    Fit(E<V>),
    Eval(Result<V, E<V>>),
}
#[derive(Clone)]
struct Pts<V> {
    x: Vec<V>,
    y: Vec<V>,
    s: Vec<V>,
}
/// The real code: fit, then (with a query) evaluate.
fn run<V: Value>(w: W, p: &Pts<V>, q: Option<V>) -> Result<Option<Out<V>>, ()> {
    fn two<V: Value, I: Interpolator<Value = V>>(i: I, p: &Pts<V>, q: Option<V>) -> Option<Out<V>> {
        let v: Vec<(V, V)> = p.x.iter().copied().zip(p.y.iter().copied()).collect();
        match i.try_fit(&v) {
            Err(e) => Some(Out::Fit(e)),
            Ok(f) => q.map(|q| Out::Eval(f.try_value(q))),
        }
    }
    Ok(match w {
        Linear => two(self::Linear::<V>::default(), p, q),
        CatmullRom => two(self::CatmullRom::<V>::default(), p, q),
        NaturalCubic => two(self::NaturalCubic::<V>::default(), p, q),
        Hermite => {
            let v: Vec<(V, V, V)> = (0..p.x.len()).map(|i| (p.x[i], p.y[i], p.s[i])).collect();
            match self::Hermite::try_new(&v) {
                Err(e) => Some(Out::Fit(e)),
                Ok(f) => q.map(|q| Out::Eval(f.try_value(q))),
            }
        }
    })
}

/// Fixed abscissae, all but (optionally) one.
type Grid<'a> = Option<(&'a [Rat], Option<usize>)>;

fn points(n: usize, grid: Grid) -> Pts<Sym> {
    Pts {
        x: (0..n).map(|i| match grid {
            Some((g, free)) if free != Some(i) => Sym::c(g[i]),
            _ => Sym::var(&format!("x{i}")),
        }).collect(),
        y: (0..n).map(|i| Sym::var(&format!("y{i}"))).collect(),
        s: (0..n).map(|i| Sym::var(&format!("s{i}"))).collect(),
    }
}
fn increasing(p: &Pts<Sym>) -> Vec<Cond> {
    p.x.windows(2).map(|w| Sym::lt(w[0], w[1])).collect()
}

// ------------------------------------------------------------ the oracles
fn two() -> Sym {
    Sym::i(2)
}
/// The cubic with given values and slopes at both ends of an interval.
fn hermite(x0: Sym, x1: Sym, y0: Sym, y1: Sym, m0: Sym, m1: Sym, q: Sym) -> Sym {
    let h = x1 - x0;
    let d = (y1 - y0) / h; // Newton form on x0, x0, x1, x1
    let a = (d - m0) / h;
    let b = (m1 - two() * d + m0) / (h * h);
    let u = q - x0;
    y0 + m0 * u + a * u * u + b * u * u * (q - x1)
}
fn chord(p: &Pts<Sym>, i: usize, j: usize) -> Sym {
    (p.y[j] - p.y[i]) / (p.x[j] - p.x[i])
}
fn catmull_slopes(p: &Pts<Sym>) -> Vec<Sym> {
    let n = p.x.len();
    (0..n)
        .map(|i| match i {
            0 => chord(p, 0, 1),
            _ if i == n - 1 => chord(p, n - 2, n - 1),
            _ => chord(p, i - 1, i + 1),
        })
        .collect()
}
/// Second derivatives of the natural spline: the tridiagonal system of the
/// slope-continuity equations, by elimination (Cramer for two unknowns).
fn moments(p: &Pts<Sym>) -> Vec<Sym> {
    let n = p.x.len();
    let h: Vec<Sym> = p.x.windows(2).map(|w| w[1] - w[0]).collect();
    let k = n - 2;
    let r: Vec<Sym> = (1..=k).map(|i| Sym::i(6) * (chord(p, i, i + 1) - chord(p, i - 1, i))).collect();
    let diag: Vec<Sym> = (1..=k).map(|i| two() * (h[i - 1] + h[i])).collect();
    let mut m = match k {
        1 => vec![r[0] / diag[0]],
        2 => {
            let det = diag[0] * diag[1] - h[1] * h[1];
            vec![(r[0] * diag[1] - h[1] * r[1]) / det, (diag[0] * r[1] - h[1] * r[0]) / det]
        }
        _ => {
            let (mut a, mut b) = (diag.clone(), r.clone());
            for i in (0..k - 1).rev() {
                // eliminate upwards, the direction the implementation does not use
                let f = h[i + 1] / a[i + 1];
                a[i] = a[i] - f * h[i + 1];
                b[i] = b[i] - f * b[i + 1];
            }
            let mut m = vec![b[0] / a[0]];
            for i in 1..k {
                m.push((b[i] - h[i] * m[i - 1]) / a[i]);
            }
            m
        }
    };
    m.insert(0, Sym::i(0));
    m.push(Sym::i(0));
    m
}
fn expected(w: W, p: &Pts<Sym>, i: usize, q: Sym) -> Sym {
    let (x0, x1, y0, y1) = (p.x[i], p.x[i + 1], p.y[i], p.y[i + 1]);
    match w {
        Linear => y0 + chord(p, i, i + 1) * (q - x0),
        Hermite => hermite(x0, x1, y0, y1, p.s[i], p.s[i + 1], q),
        CatmullRom => {
            let m = catmull_slopes(p);
            hermite(x0, x1, y0, y1, m[i], m[i + 1], q)
        }
        NaturalCubic => {
            let m = moments(p);
            let h = x1 - x0;
            let six = Sym::i(6);
            let slope = chord(p, i, i + 1) - h * (two() * m[i] + m[i + 1]) / six;
            let u = q - x0;
            y0 + slope * u + m[i] / two() * u * u + (m[i + 1] - m[i]) / (six * h) * u * u * u
        }
    }
}
/// The recorded finding: on the last segment the slope at its first knot is
/// divided by twice the last width plus the one before.
fn recorded(w: W, p: &Pts<Sym>, i: usize, q: Sym) -> Option<Sym> {
    let n = p.x.len();
    if w != CatmullRom || i + 2 != n || n < 3 {
        return None;
    }
    let h = p.x[i + 1] - p.x[i];
    let m0 = (p.y[i + 1] - p.y[i - 1]) / (h + p.x[i + 1] - p.x[i - 1]);
    Some(hermite(p.x[i], p.x[i + 1], p.y[i], p.y[i + 1], m0, chord(p, i, i + 1), q))
}

// ------------------------------------------------------------ the checks
struct Ctx {
    samples: Vec<String>,
    discharged: u64,
    obligations: u64,
    known_ok: Vec<String>,
    known: Vec<String>,
    violation: Option<J>,
    tier: bool,
}
fn set_path(c: &[Cond]) {
    A.with(|a| a.borrow_mut().path = c.to_vec());
}
fn lenient(v: bool) {
    A.with(|a| a.borrow_mut().lenient = v);
}
fn take_div0() -> Option<Vec<(String, Rat)>> {
    A.with(|a| a.borrow_mut().div0.take())
}
fn get(m: &[(String, Rat)], v: &str) -> Option<Rat> {
    m.iter().find(|(n, _)| n == v).map(|(_, r)| *r)
}
fn at(m: &[(String, Rat)], n: usize, grid: Grid) -> (Pts<Rat>, Rat) {
    let z = Rat::ZERO;
    let g = |k: &str, i: usize| get(m, &format!("{k}{i}")).unwrap_or(z);
    (
        Pts {
            x: (0..n).map(|i| match grid {
                Some((gr, free)) if free != Some(i) => gr[i],
                _ => g("x", i),
            }).collect(),
            y: (0..n).map(|i| g("y", i)).collect(),
            s: (0..n).map(|i| g("s", i)).collect(),
        },
        get(m, "q").unwrap_or(z),
    )
}
fn map<T: Copy, U>(p: &Pts<T>, f: impl Fn(T) -> U) -> Pts<U> {
    Pts {
        x: p.x.iter().map(|&v| f(v)).collect(),
        y: p.y.iter().map(|&v| f(v)).collect(),
        s: p.s.iter().map(|&v| f(v)).collect(),
    }
}
fn show<V: std::fmt::Debug>(o: &Result<Result<Option<Out<V>>, ()>, Box<dyn std::any::Any + Send>>) -> String {
    match o {
        Err(e) => format!(
            "panic: {}",
            e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
        ),
        Ok(Ok(Some(Out::Fit(e)))) => format!("fit error {e:?}"),
        Ok(Ok(Some(Out::Eval(r)))) => format!("{r:?}"),
        Ok(_) => "fitted".into(),
    }
}
/// Runs the real code at the solver's values, exactly and in f64; the
/// violation stands only if `wrong` holds there as well.
fn replay(cx: &mut Ctx, what: String, w: W, p: &Pts<Rat>, q: Option<Rat>, wrong: &dyn Fn(&str, &str) -> bool, want: String) {
    A.with(|a| {
        let mut a = a.borrow_mut();
        a.concrete = true;
        a.path.clear();
    });
    let pe = map(p, Sym::c);
    let exact = show(&catch_unwind(AssertUnwindSafe(|| run(w, &pe, q.map(Sym::c)))));
    let pf = map(p, Rat::f64);
    let float = show(&catch_unwind(AssertUnwindSafe(|| run(w, &pf, q.map(Rat::f64)))));
    A.with(|a| a.borrow_mut().concrete = false);
    let l = |v: &Vec<Rat>| v.iter().map(|r| r.to_string()).collect::<Vec<_>>();
    if !wrong(&exact, &float) {
        panic!("unsupported: counterexample did not reproduce: {what}; x={:?} y={:?} q={q:?}: exact {exact}, f64 {float}, expected {want}", l(&p.x), l(&p.y));
    }
    cx.violation = Some(json!({
        "what": format!("{w:?}: {what}"), "x": l(&p.x), "y": l(&p.y), "slopes": l(&p.s), "query": q.map(|r| r.to_string()),
        "expected": want, "real_code_exact": exact, "real_code_f64": float,
    }));
}
fn class(e: &E<Sym>) -> String {
    match e {
        E::PointOrderError => "order".into(),
        E::OutOfLowerBound(_) => "lower".into(),
        E::OutOfUpperBound(_) => "upper".into(),
        E::InsufficientPointsError(k) => format!("few {k}"),
    }
}
/// Is `bad` possible together with `path`? Some(model) if so.
fn possible(cx: &mut Ctx, path: &[Cond], bad: &[Cond]) -> Option<Vec<(String, Rat)>> {
    cx.obligations += 1;
    let mut v = path.to_vec();
    v.extend(bad.iter().cloned());
    if sat(&v) {
        return Some(model(&v));
    }
    cx.discharged += 1;
    None
}
/// `v == r` on this path? Otherwise a model of the difference.
fn differs(cx: &mut Ctx, p: &Pts<Sym>, path: &[Cond], v: Sym, rs: &[Sym]) -> Option<Vec<(String, Rat)>> {
    cx.obligations += 1;
    let mut c = path.to_vec();
    c.extend(rs.iter().map(|&r| Sym::ne(v, r)));
    // A difference, if there is one, usually shows with the abscissae pinned.
    for pin in pins(p) {
        let mut d = c.clone();
        d.extend(pin);
        if sat(&d) {
            return Some(model(&d));
        }
    }
    for &r in rs {
        // Without the path first: an identity of polynomials. A path taken only
        // at a knot contributes that equation.
        let q = Sym::var("q");
        let mut c = Sym::ne(v, r);
        for &x in &p.x {
            let mut off = path.to_vec();
            off.push(Sym::ne(q, x));
            if !sat(&off) {
                c = c.replace(q, x);
                break;
            }
        }
        if !sat_identity(c) {
            cx.discharged += 1;
            return None;
        }
    }
    if sat(&c) {
        return Some(model(&c));
    }
    cx.discharged += 1;
    None
}

/// Points to look at first: the abscissae (where free) and the query pinned.
fn pins(p: &Pts<Sym>) -> Vec<Vec<Cond>> {
    let n = p.x.len();
    let mut out = vec![];
    for (from, gaps) in [(0, [3, 1, 2, 5, 1, 3, 7]), (-9, [1, 4, 3, 1, 2, 6, 1])] {
        let mut g = vec![Rat::int(from)];
        for i in 1..n {
            g.push(g[i - 1].add(Rat::int(gaps[i % 7])));
        }
        let fixed: Vec<Option<Rat>> = p.x.iter().map(|x| x.as_const()).collect();
        if fixed.iter().any(|f| f.is_some()) {
            let third = Rat::new(if from == 0 { 1 } else { 2 }, 3);
            for i in 0..n {
                g[i] = match fixed[i] {
                    Some(v) => v,
                    None => {
                        let (a, b) = (fixed[i - 1].unwrap(), fixed[i + 1].unwrap());
                        a.add(third.mul(b.add(a.neg())))
                    }
                };
            }
        }
        for i in 0..n - 1 {
            let at = g[i].mul(Rat::int(2)).add(g[i + 1]).mul(Rat::new(1, 3));
            let mut v = vec![Sym::eq(Sym::var("q"), Sym::c(at))];
            v.extend((0..n).map(|i| Sym::eq(p.x[i], Sym::c(g[i]))));
            out.push(v);
        }
    }
    out
}

/// Values: on every segment, ends included, the code returns the oracle's value.
fn values(cx: &mut Ctx, w: W, n: usize, grid: Grid) {
    let p = points(n, grid);
    let q = Sym::var("q");
    for i in 0..n - 1 {
        let mut assume = increasing(&p);
        assume.push(Sym::le(p.x[i], q));
        assume.push(Sym::le(q, p.x[i + 1]));
        let paths = explore(&assume, || run(w, &p, Some(q)));
        assert!(!paths.is_empty(), "unsupported: no path");
        set_path(&assume);
        let want = expected(w, &p, i, q);
        let known = recorded(w, &p, i, q);
        for path in &paths {
            let tag = format!("{w:?}, {n} points{}, segment {i}", match grid {
                None => "",
                Some((_, None)) => " on a fixed grid",
                Some(_) => " on a grid with one free knot",
            });
            let m = match &path.end {
                End::Value(Ok(Some(Out::Eval(Ok(v))))) => {
                    let id = "catmull-rom-last-segment".to_string();
                    match known {
                        Some(k) if cx.known_ok.contains(&id) => {
                            let only = differs(cx, &p, &path.cond, *v, &[want]);
                            if only.is_some() && differs(cx, &p, &path.cond, *v, &[k]).is_none() {
                                if !cx.known.contains(&id) {
                                    cx.known.push(id);
                                }
                                cx.discharged += 1;
                                None
                            } else if only.is_some() {
                                let mut c = path.cond.clone();
                                c.push(Sym::ne(*v, want));
                                c.push(Sym::ne(*v, k));
                                if sat(&c) { Some(model(&c)) } else { only }
                            } else {
                                None
                            }
                        }
                        _ => differs(cx, &p, &path.cond, *v, &[want]),
                    }
                }
                _ => possible(cx, &path.cond, &[]).or_else(|| panic!("unsupported: infeasible path")),
            };
            let m = match &path.end {
                End::Panic(_) => take_div0().or(m),
                _ => m,
            };
            if let Some(m) = m {
                let (cp, cq) = at(&m, n, grid);
                set_path(&[]);
                let e = expected(w, &map(&cp, Sym::c), i, Sym::c(cq)).as_const().expect("unsupported: reference");
                let want = format!("Ok({e})");
                replay(cx, tag, w, &cp, Some(cq), &|ex, _| ex != want, want.clone());
                return;
            }
            cx.samples.push(format!("{tag}: equals the reference for every knot, value and query"));
        }
    }
}

/// Domain: value inside, bound errors (with the query) outside.
fn domain(cx: &mut Ctx, w: W, n: usize) {
    let p = points(n, None);
    let q = Sym::var("q");
    let assume = increasing(&p);
    let paths = explore(&assume, || run(w, &p, Some(q)));
    for path in &paths {
        let tag = format!("{w:?}, {n} points in increasing order, any query");
        let below = || Sym::lt(q, p.x[0]);
        let above = || Sym::lt(p.x[n - 1], q);
        let bad: Vec<Vec<Cond>> = match &path.end {
            End::Value(Ok(Some(Out::Eval(r)))) if n >= w.min() => match r {
                Ok(_) => vec![vec![below()], vec![above()]],
                Err(E::OutOfLowerBound(v)) => vec![below().not(), vec![Sym::ne(*v, q)]],
                Err(E::OutOfUpperBound(v)) => vec![above().not(), vec![Sym::ne(*v, q)]],
                Err(_) => vec![vec![]],
            },
            End::Value(Ok(Some(Out::Fit(_)))) if n >= w.min() => vec![vec![]],
            // Too few points: any error, at fit or at evaluation.
            End::Value(Ok(Some(Out::Fit(_)))) | End::Value(Ok(Some(Out::Eval(Err(_))))) => vec![],
            End::Value(_) => vec![vec![]],
            End::Panic(_) => vec![vec![]],
        };
        cx.samples.push(format!("{tag}: {} cases", bad.len()));
        for b in bad {
            let mut m = possible(cx, &path.cond, &b);
            if let End::Panic(_) = path.end {
                m = take_div0().or(m);
            }
            if let Some(m) = m {
                let (cp, cq) = at(&m, n, None);
                let want = if n < w.min() {
                    "an error".to_string()
                } else if cq.cmp(cp.x[0]).is_lt() {
                    format!("Err(OutOfLowerBound({cq}))")
                } else if cq.cmp(cp.x[n - 1]).is_gt() {
                    format!("Err(OutOfUpperBound({cq}))")
                } else {
                    "Ok".to_string()
                };
                let wc = want.clone();
                replay(cx, tag.clone(), w, &cp, Some(cq), &move |ex, _| match wc.as_str() {
                    "an error" => ex.starts_with("Ok") || ex.starts_with("panic"),
                    "Ok" => !ex.starts_with("Ok"),
                    o => ex != o,
                }, want);
                return;
            }
        }
    }
}

/// No list of points and no query panics (order and distinctness not assumed).
fn total(cx: &mut Ctx, w: W, n: usize) {
    let p = points(n, None);
    let q = Sym::var("q");
    lenient(true);
    let paths = explore(&[], || run(w, &p, Some(q)));
    lenient(false);
    cx.samples.push(format!("{w:?}, any {n} points and any query: {} paths, none panics", paths.len()));
    for path in &paths {
        cx.obligations += 1;
        if let End::Panic(msg) = &path.end {
            let m = model(&path.cond);
            let (cp, cq) = at(&m, n, None);
            replay(cx, format!("panic on {n} points: {msg}"), w, &cp, Some(cq), &|_, fl| fl.starts_with("panic"), "no panic".into());
            return;
        }
        cx.discharged += 1;
    }
}
fn unfitted(cx: &mut Ctx, w: W) {
    let f = |q: Sym| -> bool {
        match w {
            Linear => self::Linear::<Sym>::default().try_value(q).is_err(),
            CatmullRom => self::CatmullRom::<Sym>::default().try_value(q).is_err(),
            NaturalCubic => self::NaturalCubic::<Sym>::default().try_value(q).is_err(),
            Hermite => true,
        }
    };
    for path in explore(&[], || f(Sym::var("q"))) {
        cx.obligations += 1;
        if let End::Value(true) = path.end {
            cx.discharged += 1;
            continue;
        }
        let e = Pts { x: vec![], y: vec![], s: vec![] };
        replay(cx, "evaluation before fitting is not an error".into(), w, &e, Some(Rat::ZERO), &|ex, _| !ex.contains("rror") && !ex.contains("Insufficient"), "an error".into());
    }
}

/// Validation of the points by the fit.
fn validation(cx: &mut Ctx, w: W, n: usize) {
    let p = points(n, None);
    lenient(true);
    let paths = explore(&[], || run(w, &p, None).map(|o| o.map(|o| match o {
        Out::Fit(e) => class(&e),
        Out::Eval(_) => unreachable!(),
    })));
    lenient(false);
    let step_down = Cond::Any(p.x.windows(2).map(|x| Sym::lt(x[1], x[0])).collect());
    let strictly = increasing(&p);
    for path in &paths {
        cx.samples.push(format!("{w:?}, any {n} points: one of {} outcomes of the fit", paths.len()));
        let few = w != Linear && n < 3;
        let bad: Vec<Cond>;
        let want;
        match &path.end {
            End::Value(Ok(None)) if !few => {
                bad = vec![step_down.clone()];
                want = "fit error PointOrderError".to_string();
            }
            End::Value(Ok(Some(e))) if few => {
                want = format!("fit error InsufficientPointsError({n})");
                if *e == format!("few {n}") {
                    cx.obligations += 1;
                    cx.discharged += 1;
                    continue;
                }
                bad = vec![];
            }
            End::Value(Ok(Some(e))) if e == "order" => {
                bad = strictly.clone();
                want = "fitted".to_string();
            }
            End::Value(Ok(Some(_))) if n < w.min() => {
                cx.obligations += 1;
                cx.discharged += 1;
                continue; // one point or none: linear may refuse
            }
            _ if few => {
                bad = vec![];
                want = format!("fit error InsufficientPointsError({n})");
            }
            End::Value(Ok(Some(_))) => {
                bad = vec![];
                want = "fitted or PointOrderError".to_string();
            }
            _ => {
                bad = vec![];
                want = "no panic".to_string();
            }
        }
        if let Some(m) = possible(cx, &path.cond, &bad) {
            let (cp, _) = at(&m, n, None);
            let wc = want.clone();
            replay(cx, format!("validation of {n} points"), w, &cp, None, &move |_, fl| match wc.as_str() {
                "no panic" => fl.starts_with("panic"),
                "fitted or PointOrderError" => fl != "fitted" && fl != "fit error PointOrderError",
                o => fl != o,
            }, want);
            return;
        }
    }
}

fn grids(thorough: bool) -> Vec<Vec<Rat>> {
    let r = |v: &[(i128, i128)]| v.iter().map(|&(n, d)| Rat::new(n, d)).collect::<Vec<_>>();
    let mut v = vec![
        r(&[(0, 1), (1, 1), (3, 1), (4, 1), (9, 1)]),
        r(&[(-2, 1), (-1, 2), (0, 1), (5, 1), (6, 1), (13, 2)]),
        r(&[(-7, 1), (-3, 1), (-2, 1), (0, 1), (1, 2), (4, 1), (5, 1), (11, 1)]),
    ];
    if thorough {
        for (n, gaps) in [(6, [1, 100, 1, 1, 50]), (9, [2, 1, 3, 1, 1]), (10, [1, 2, 1, 4, 1]), (12, [1, 1, 3, 1, 2]), (12, [3, 2, 1, 1, 1])] {
            let mut g = vec![Rat::new(-5, 2)];
            for i in 1..n {
                g.push(g[i - 1].add(Rat::int(gaps[i % 5])));
            }
            v.push(g);
        }
    }
    v
}

fn decide(cx: &mut Ctx, prop: &str) {
    let all = [Linear, Hermite, CatmullRom, NaturalCubic];
    let t = cx.tier;
    let mut steps: Vec<Box<dyn Fn(&mut Ctx)>> = vec![];
    match prop {
        "C10" => {
            for w in all {
                steps.push(Box::new(move |c| unfitted(c, w)));
                for n in 0..=if t { 12 } else { 7 } {
                    steps.push(Box::new(move |c| if n > 0 && (w != NaturalCubic || n <= if t { 6 } else { 5 }) { domain(c, w, n) }));
                    steps.push(Box::new(move |c| total(c, w, n)));
                }
            }
        }
        "C11" => {
            for w in all {
                for n in 0..=if t { 12 } else { 7 } {
                    steps.push(Box::new(move |c| validation(c, w, n)));
                }
            }
        }
        "C12" => {
            for n in 2..=if t { 32 } else { 12 } {
                steps.push(Box::new(move |c| values(c, Linear, n, None)));
            }
        }
        "C13" => {
            for n in 3..=if t { 20 } else { 9 } {
                steps.push(Box::new(move |c| values(c, Hermite, n, None)));
            }
        }
        "C14" => {
            for n in 3..=if t { 20 } else { 9 } {
                steps.push(Box::new(move |c| values(c, CatmullRom, n, None)));
            }
        }
        "C15" => {
            for n in 3..=5 {
                steps.push(Box::new(move |c| values(c, NaturalCubic, n, None)));
            }
            for (k, g) in grids(t).into_iter().enumerate() {
                let h = g.clone();
                steps.push(Box::new(move |c| values(c, NaturalCubic, g.len(), Some((&g, None)))));
                if k == 1 || t && k < 5 {
                    for free in 1..h.len() - 1 {
                        let h = h.clone();
                        steps.push(Box::new(move |c| if c.violation.is_none() { values(c, NaturalCubic, h.len(), Some((&h, Some(free)))) }));
                    }
                }
            }
        }
        "C16" => steps.push(Box::new(pricing::curve)),
        "C17" => steps.push(Box::new(pricing::fitting)),
        "C19" | "C20" => steps.push(Box::new(pricing::bonds)),
        _ => panic!("unsupported: {prop}"),
    }
    let _ = Rel::Lt;
    for s in steps {
        s(cx);
        if cx.violation.is_some() {
            return;
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let known: J = std::fs::read_to_string(&a[3]).ok().and_then(|t| serde_json::from_str(&t).ok()).unwrap_or(json!({}));
    let mut cx = Ctx {
        samples: vec![],
        discharged: 0,
        obligations: 0,
        known_ok: known["findings"].as_array().map(|v| v.iter().filter(|f| f["property"] == a[1].as_str()).filter_map(|f| f["id"].as_str().map(String::from)).collect()).unwrap_or_default(),
        known: vec![],
        violation: None,
        tier: a[2] == "thorough",
    };
    let r = catch_unwind(AssertUnwindSafe(|| decide(&mut cx, &a[1])));
    if let Err(e) = r {
        println!("INCONCLUSIVE {}", e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default());
        std::process::exit(2);
    }
    let (st, nodes) = A.with(|a| {
        let a = a.borrow();
        (a.stats.clone(), a.nodes.len())
    });
    cx.samples.dedup();
    let funcs = [
        "qlab_math::interpolation::linear::Linear::{try_fit,try_value}", "qlab_math::interpolation::find_index_at_left_boundary",
        "qlab_math::interpolation::spline::hermite::Hermite::{try_new,try_value}", "qlab_math::interpolation::spline::catmull_rom::CatmullRom::{try_fit,try_value}",
        "qlab_math::interpolation::spline::natural_cubic::NaturalCubic::{try_fit,try_value}", "qlab_math::linear_algebra::tridiagonal_matrix::TridiagonalMatrix::{try_new,solve,mul}",
    ];
    let curve = [
        "qlab_termstructure::yield_curve::YieldCurve::new", "qlab_termstructure::yield_curve::YieldCurve::discount_factor",
        "qlab_instrument::bond::Bond::new", "qlab_instrument::bond::Bond::discounted_value",
    ];
    let funcs: Vec<&str> = match a[1].as_str() {
        "C12" => funcs[..2].to_vec(),
        "C13" => funcs[1..3].to_vec(),
        "C14" => vec![funcs[1], funcs[3]],
        "C15" => vec![funcs[1], funcs[4], funcs[5]],
        "C16" => vec![curve[1], funcs[0]],
        "C17" => vec![curve[0]],
        "C19" | "C20" => vec![curve[0], curve[1], curve[2], curve[3], funcs[0]],
        _ => funcs.to_vec(),
    };
    let out = json!({
        "coverage": {
            "engine": "symbolic execution of the compiled generic code over V = Sym, Z3 over exact real arithmetic",
            "states": nodes, "transitions": st.paths, "queries": cx.obligations, "discharged": cx.discharged, "solver_queries": st.queries,
            "solver_s": (st.solver_s * 100.0).round() / 100.0, "functions": funcs, "samples": cx.samples, "replayed": 0,
        },
        "violation": cx.violation, "known": cx.known,
    });
    std::fs::write(&a[4], out.to_string()).unwrap();
    println!("{} obligations, {} discharged, {} paths, {} solver queries", cx.obligations, cx.discharged, st.paths, st.queries);
}
