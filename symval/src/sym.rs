//! A symbolic number type. The repository's generic numeric code is run, as
//! compiled, with `V = Sym`: arithmetic builds terms, a comparison asks the
//! solver which outcomes are possible under the path so far and the code is
//! re-run for each of them.
use crate::rat::Rat;
use crate::z3::Solver;
use num_traits::real::Real;
use num_traits::{FromPrimitive, Num, NumCast, One, ToPrimitive, Zero};
use qlab_math::value::Value;
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap};
use std::ops::*;

pub type P = u32; // polynomial node
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    C(Rat),
    V(u32),
    Add(P, P),
    Mul(P, P),
}
/// num / product of den factors (each proved non-zero when it was divided by)
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Frac {
    n: P,
    d: BTreeMap<P, u32>,
}
#[derive(Clone, Copy)]
pub struct Sym(u32);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Rel {
    Lt,
    Le,
    Eq,
    Ne,
}
/// `p rel 0`, over the reals, together with its truth value.
#[derive(Clone, Debug)]
pub enum Cond {
    Rel(P, Rel),
    Any(Vec<Cond>),
}
impl Cond {
    pub fn not(&self) -> Vec<Cond> {
        // a conjunction
        match self {
            Cond::Rel(p, Rel::Eq) => vec![Cond::Rel(*p, Rel::Ne)],
            Cond::Rel(p, Rel::Ne) => vec![Cond::Rel(*p, Rel::Eq)],
            Cond::Rel(p, Rel::Lt) => vec![Cond::Rel(neg(*p), Rel::Le)],
            Cond::Rel(p, Rel::Le) => vec![Cond::Rel(neg(*p), Rel::Lt)],
            Cond::Any(v) => v.iter().flat_map(|c| c.not()).collect(),
        }
    }
}

#[derive(Default)]
pub struct Arena {
    pub nodes: Vec<Node>,
    ix: HashMap<Node, P>,
    fracs: Vec<Frac>,
    fix: HashMap<Frac, u32>,
    pub vars: Vec<String>,
    emitted: usize,
    declared: usize,
    // exploration
    pub path: Vec<Cond>,
    forced: Vec<bool>,
    taken: Vec<(bool, bool)>,
    nonzero: Vec<P>,
    /// What a possibly zero divisor means: refuse (record) or an unknown value.
    pub lenient: bool,
    pub div0: Option<Vec<(String, Rat)>>,
    pub stats: Stats,
    pub concrete: bool,
    /// Exponentials: argument and the variable that stands for the value.
    exps: Vec<(Sym, Sym)>,
    exps_on_path: Vec<u32>,
}
#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub identities: u64,
    pub paths: u64,
    pub solver_s: f64,
}
thread_local! {
    pub static A: RefCell<Arena> = RefCell::new(Arena::default());
    static Z: RefCell<Option<Solver>> = const { RefCell::new(None) };
}

fn mk(n: Node) -> P {
    A.with(|a| {
        let a = &mut *a.borrow_mut();
        if let Some(i) = a.ix.get(&n) {
            return *i;
        }
        a.nodes.push(n);
        let i = (a.nodes.len() - 1) as P;
        a.ix.insert(n, i);
        i
    })
}
fn node(p: P) -> Node {
    A.with(|a| a.borrow().nodes[p as usize])
}
pub fn cst(r: Rat) -> P {
    mk(Node::C(r))
}
pub fn add(a: P, b: P) -> P {
    match (node(a), node(b)) {
        (Node::C(x), Node::C(y)) => cst(x.add(y)),
        (Node::C(x), _) if x.n == 0 => b,
        (_, Node::C(y)) if y.n == 0 => a,
        _ => mk(Node::Add(a.min(b), a.max(b))),
    }
}
pub fn mul(a: P, b: P) -> P {
    match (node(a), node(b)) {
        (Node::C(x), Node::C(y)) => cst(x.mul(y)),
        (Node::C(x), _) if x.n == 0 => a,
        (_, Node::C(y)) if y.n == 0 => b,
        (Node::C(x), _) if x == Rat::ONE => b,
        (_, Node::C(y)) if y == Rat::ONE => a,
        (Node::C(x), Node::Mul(l, r)) if matches!(node(l), Node::C(_)) => {
            let Node::C(y) = node(l) else { unreachable!() };
            mul(cst(x.mul(y)), r)
        }
        (_, Node::C(_)) => mul(b, a),
        (Node::C(_), _) => mk(Node::Mul(a, b)),
        // constants float to the front
        (Node::Mul(l, r), _) if matches!(node(l), Node::C(_)) => mul(l, mul(r, b)),
        (_, Node::Mul(l, r)) if matches!(node(l), Node::C(_)) => mul(l, mul(a, r)),
        _ => mk(Node::Mul(a.min(b), a.max(b))),
    }
}
pub fn neg(a: P) -> P {
    mul(cst(Rat::int(-1)), a)
}
pub fn sub(a: P, b: P) -> P {
    add(a, neg(b))
}
pub fn is_const(p: P) -> Option<Rat> {
    match node(p) {
        Node::C(r) => Some(r),
        _ => None,
    }
}
fn factors(p: P, out: &mut Vec<P>) {
    match node(p) {
        Node::Mul(a, b) => {
            factors(a, out);
            factors(b, out);
        }
        _ => out.push(p),
    }
}
fn product(v: &[P]) -> P {
    v.iter().fold(cst(Rat::ONE), |a, &b| mul(a, b))
}
fn den_poly(d: &BTreeMap<P, u32>) -> P {
    let mut r = cst(Rat::ONE);
    for (&p, &k) in d {
        for _ in 0..k {
            r = mul(r, p);
        }
    }
    r
}
fn mkf(n: P, d: BTreeMap<P, u32>) -> Sym {
    let d = if is_const(n).is_some_and(|r| r.n == 0) { BTreeMap::new() } else { d };
    let f = Frac { n, d };
    A.with(|a| {
        let a = &mut *a.borrow_mut();
        if let Some(i) = a.fix.get(&f) {
            return Sym(*i);
        }
        a.fracs.push(f.clone());
        let i = (a.fracs.len() - 1) as u32;
        a.fix.insert(f, i);
        Sym(i)
    })
}
/// Cancels factors present on both sides.
fn reduced(n: P, mut d: BTreeMap<P, u32>) -> Sym {
    if d.is_empty() {
        return mkf(n, d);
    }
    let mut fs = vec![];
    factors(n, &mut fs);
    let mut rest = vec![];
    for f in fs {
        match d.get_mut(&f) {
            Some(k) if *k > 0 => *k -= 1,
            _ => rest.push(f),
        }
    }
    d.retain(|_, k| *k > 0);
    mkf(product(&rest), d)
}
impl Sym {
    fn f(self) -> Frac {
        A.with(|a| a.borrow().fracs[self.0 as usize].clone())
    }
    pub fn c(r: Rat) -> Sym {
        mkf(cst(r), BTreeMap::new())
    }
    pub fn i(n: i128) -> Sym {
        Sym::c(Rat::int(n))
    }
    pub fn var(name: &str) -> Sym {
        let i = A.with(|a| {
            let a = &mut *a.borrow_mut();
            if let Some(k) = a.vars.iter().position(|v| v == name) {
                return k as u32;
            }
            a.vars.push(name.to_string());
            (a.vars.len() - 1) as u32
        });
        mkf(mk(Node::V(i)), BTreeMap::new())
    }
    pub fn as_const(self) -> Option<Rat> {
        let f = self.f();
        if f.d.is_empty() {
            is_const(f.n)
        } else {
            None
        }
    }
    /// With variable `v` set to `r`.
    pub fn at(self, v: Sym, r: Rat) -> Sym {
        let (f, v, mut memo) = (self.f(), v.f().n, HashMap::new());
        let c = cst(r);
        let n = Sym::poly(subst(f.n, v, c, &mut memo));
        let d = Sym::poly(subst(den_poly(&f.d), v, c, &mut memo));
        if d.as_const() == Some(Rat::ONE) { n } else { n / d }
    }
    fn poly(p: P) -> Sym {
        mkf(p, BTreeMap::new())
    }
    /// A polynomial with the sign of `self - o` (`even` also squares the
    /// denominator, so that it is not just zero in the same places).
    fn diff(self, o: Sym, sign: bool) -> P {
        let d = self.sub_(o);
        let f = d.f();
        if !sign {
            return f.n;
        }
        // An even power of a factor is positive.
        let odd: Vec<P> = f.d.iter().filter(|(_, k)| *k % 2 == 1).map(|(p, _)| *p).collect();
        mul(f.n, product(&odd))
    }
    fn sub_(self, o: Sym) -> Sym {
        self + (-o)
    }
    pub fn lt(self, o: Sym) -> Cond {
        Cond::Rel(self.diff(o, true), Rel::Lt)
    }
    pub fn le(self, o: Sym) -> Cond {
        Cond::Rel(self.diff(o, true), Rel::Le)
    }
    pub fn eq(self, o: Sym) -> Cond {
        Cond::Rel(self.diff(o, false), Rel::Eq)
    }
    pub fn ne(self, o: Sym) -> Cond {
        Cond::Rel(self.diff(o, false), Rel::Ne)
    }
}
impl std::fmt::Debug for Sym {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self.as_const() {
            Some(r) => write!(f, "{r}"),
            None => write!(f, "<term {}>", self.0),
        }
    }
}
impl std::fmt::Display for Sym {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}

// ------------------------------------------------------------- the solver
fn with_solver<R>(f: impl FnOnce(&mut Solver) -> R) -> R {
    Z.with(|z| {
        let mut z = z.borrow_mut();
        let s = z.get_or_insert_with(Solver::start);
        A.with(|a| {
            let a = &mut *a.borrow_mut();
            while a.declared < a.vars.len() {
                s.send(&format!("(declare-const v{} Real)", a.declared));
                a.declared += 1;
            }
            while a.emitted < a.nodes.len() {
                let i = a.emitted;
                let t = match a.nodes[i] {
                    Node::C(r) => r.smt(),
                    Node::V(v) => format!("v{v}"),
                    Node::Add(x, y) => format!("(+ n{x} n{y})"),
                    Node::Mul(x, y) => format!("(* n{x} n{y})"),
                };
                s.send(&format!("(define-fun n{i} () Real {t})"));
                a.emitted += 1;
            }
        });
        f(s)
    })
}
fn smt(c: &Cond) -> String {
    match c {
        Cond::Rel(p, Rel::Lt) => format!("(< n{p} 0.0)"),
        Cond::Rel(p, Rel::Le) => format!("(<= n{p} 0.0)"),
        Cond::Rel(p, Rel::Eq) => format!("(= n{p} 0.0)"),
        Cond::Rel(p, Rel::Ne) => format!("(distinct n{p} 0.0)"),
        Cond::Any(v) => format!("(or false {})", v.iter().map(smt).collect::<Vec<_>>().join(" ")),
    }
}
/// `p` with variable `v` replaced by `by`.
pub fn subst(p: P, v: P, by: P, memo: &mut HashMap<P, P>) -> P {
    if p == v {
        return by;
    }
    if let Some(&r) = memo.get(&p) {
        return r;
    }
    let r = match node(p) {
        Node::Add(a, b) => add(subst(a, v, by, memo), subst(b, v, by, memo)),
        Node::Mul(a, b) => mul(subst(a, v, by, memo), subst(b, v, by, memo)),
        _ => p,
    };
    memo.insert(p, r);
    r
}
impl Cond {
    pub fn replace(&self, v: Sym, by: Sym) -> Cond {
        let (v, by) = (v.f(), by.f());
        match self {
            Cond::Rel(p, r) if v.d.is_empty() && by.d.is_empty() => Cond::Rel(subst(*p, v.n, by.n, &mut HashMap::new()), *r),
            c => c.clone(),
        }
    }
}
/// Is the conjunction satisfiable over the reals?
pub fn sat(cs: &[Cond]) -> bool {
    query(cs, false)
}
/// The same for one disequality of polynomials, which the solver expands.
pub fn sat_identity(c: Cond) -> bool {
    query(&[c], true)
}
fn query(cs: &[Cond], som: bool) -> bool {
    let mut open = vec![];
    for c in cs {
        if let Cond::Rel(p, r) = c {
            if let Some(k) = is_const(*p) {
                let holds = match r {
                    Rel::Lt => k.n < 0,
                    Rel::Le => k.n <= 0,
                    Rel::Eq => k.n == 0,
                    Rel::Ne => k.n != 0,
                };
                if holds {
                    continue;
                }
                return false;
            }
        }
        open.push(smt(c));
    }
    let t = std::time::Instant::now();
    let r = with_solver(|s| {
        s.send("(push)");
        for c in &open {
            s.send(&format!("(assert {c})"));
        }
        let r = if som { s.check_som() } else { s.check() };
        s.send("(pop)");
        r
    });
    A.with(|a| {
        let st = &mut a.borrow_mut().stats;
        st.queries += 1;
        st.solver_s += t.elapsed().as_secs_f64();
    });
    match r.as_str() {
        "sat" => true,
        "unsat" => false,
        o => panic!("unsupported: the solver answered {o}"),
    }
}
/// A model of the conjunction with small rational values where possible.
pub fn model(cs: &[Cond]) -> Vec<(String, Rat)> {
    let vars: Vec<(u32, String)> = A.with(|a| a.borrow().vars.iter().cloned().enumerate().map(|(i, n)| (i as u32, n)).collect());
    let mut fixed: Vec<Cond> = cs.to_vec();
    let mut out = vec![];
    let cand: Vec<Rat> = [0, 1, 3, 2, 4, -1, 7, -3, 12, -10, 20]
        .iter()
        .map(|&n| Rat::int(n))
        .chain([(1, 2), (1, 4), (3, 4), (3, 2), (5, 2), (7, 2), (1, 3)].iter().map(|&(n, d)| Rat::new(n, d)))
        .collect();
    for (i, name) in vars {
        let v = mk(Node::V(i));
        let mut got = None;
        for &c in &cand {
            let k = Cond::Rel(sub(v, cst(c)), Rel::Eq);
            fixed.push(k);
            if sat(&fixed) {
                got = Some(c);
                break;
            }
            fixed.pop();
        }
        let c = match got {
            Some(c) => c,
            None => {
                let c = value_of(&fixed, i).expect("unsupported: no rational model");
                fixed.push(Cond::Rel(sub(v, cst(c)), Rel::Eq));
                if !sat(&fixed) {
                    panic!("unsupported: no rational model");
                }
                c
            }
        };
        out.push((name, c));
    }
    out
}
fn value_of(cs: &[Cond], v: u32) -> Option<Rat> {
    let txt: Vec<String> = cs.iter().map(smt).collect();
    with_solver(|s| {
        s.send("(push)");
        for c in &txt {
            s.send(&format!("(assert {c})"));
        }
        let r = s.check();
        let out = if r == "sat" { s.value(&format!("v{v}")) } else { None };
        s.send("(pop)");
        out
    })
}

// ------------------------------------------------------------- exploration
struct Infeasible;
/// Which way does `c` go? Follows the forced prefix, then the feasible side.
fn decide(c: Cond) -> bool {
    if let Cond::Rel(p, r) = &c {
        if let Some(k) = is_const(*p) {
            return match r {
                Rel::Lt => k.n < 0,
                Rel::Le => k.n <= 0,
                Rel::Eq => k.n == 0,
                Rel::Ne => k.n != 0,
            };
        }
    }
    let (path, forced, concrete) = A.with(|a| {
        let a = a.borrow();
        (a.path.clone(), a.forced.get(a.taken.len()).copied(), a.concrete)
    });
    assert!(!concrete, "unsupported: symbolic comparison in a concrete run");
    let no = c.not();
    let (v, both) = match forced {
        Some(v) => (v, false), // the alternative was already queued
        None => {
            let mut p = path.clone();
            p.push(c.clone());
            let t = sat(&p);
            let mut q = path;
            q.extend(no.iter().cloned());
            let f = sat(&q);
            if !t && !f {
                std::panic::panic_any(Infeasible);
            }
            (t, t && f)
        }
    };
    A.with(|a| {
        let a = &mut *a.borrow_mut();
        a.taken.push((v, both));
        if v {
            a.path.push(c);
        } else {
            a.path.extend(no);
        }
    });
    v
}
pub enum End<R> {
    Value(R),
    Panic(String),
}
pub struct Path<R> {
    pub cond: Vec<Cond>,
    pub end: End<R>,
}
/// Runs `f` once for every feasible combination of comparison outcomes.
pub fn explore<R>(assume: &[Cond], f: impl Fn() -> R) -> Vec<Path<R>> {
    let mut out = vec![];
    let mut work: Vec<Vec<bool>> = vec![vec![]];
    while let Some(forced) = work.pop() {
        let nf = forced.len();
        A.with(|a| {
            let a = &mut *a.borrow_mut();
            a.path = assume.to_vec();
            a.forced = forced;
            a.taken.clear();
            a.nonzero.clear();
            a.exps_on_path.clear();
        });
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(&f));
        let (cond, taken) = A.with(|a| {
            let a = &mut *a.borrow_mut();
            a.stats.paths += 1;
            (std::mem::take(&mut a.path), std::mem::take(&mut a.taken))
        });
        for k in nf..taken.len() {
            if taken[k].1 {
                let mut p: Vec<bool> = taken[..k].iter().map(|t| t.0).collect();
                p.push(!taken[k].0);
                work.push(p);
            }
        }
        let end = match r {
            Ok(v) => End::Value(v),
            Err(e) => {
                if e.is::<Infeasible>() {
                    continue;
                }
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                if m.starts_with("unsupported") {
                    std::panic::panic_any(m);
                }
                End::Panic(m)
            }
        };
        out.push(Path { cond, end });
        assert!(out.len() < 5000, "unsupported: too many paths");
    }
    out
}

// ------------------------------------------------------------- arithmetic
impl Add for Sym {
    type Output = Sym;
    fn add(self, o: Sym) -> Sym {
        let (a, b) = (self.f(), o.f());
        if a.d == b.d {
            return reduced(add(a.n, b.n), a.d);
        }
        let mut l = a.d.clone();
        for (&p, &k) in &b.d {
            let e = l.entry(p).or_insert(0);
            *e = (*e).max(k);
        }
        let up = |n: P, d: &BTreeMap<P, u32>| {
            let mut r = n;
            for (&p, &k) in &l {
                for _ in 0..k - d.get(&p).copied().unwrap_or(0) {
                    r = mul(r, p);
                }
            }
            r
        };
        let n = add(up(a.n, &a.d), up(b.n, &b.d));
        reduced(n, l)
    }
}
impl Neg for Sym {
    type Output = Sym;
    fn neg(self) -> Sym {
        let a = self.f();
        mkf(neg(a.n), a.d)
    }
}
impl Sub for Sym {
    type Output = Sym;
    fn sub(self, o: Sym) -> Sym {
        self + (-o)
    }
}
impl Mul for Sym {
    type Output = Sym;
    fn mul(self, o: Sym) -> Sym {
        let (a, b) = (self.f(), o.f());
        let mut d = a.d;
        for (p, k) in b.d {
            *d.entry(p).or_insert(0) += k;
        }
        reduced(mul(a.n, b.n), d)
    }
}
/// Establishes that `p` is not zero on this path; false if it may be.
fn nonzero(p: P) -> bool {
    if let Some(k) = is_const(p) {
        return k.n != 0;
    }
    if A.with(|a| a.borrow().nonzero.contains(&p)) {
        return true;
    }
    let mut cs = A.with(|a| a.borrow().path.clone());
    cs.push(Cond::Rel(p, Rel::Eq));
    if !sat(&cs) {
        A.with(|a| a.borrow_mut().nonzero.push(p));
        return true;
    }
    if !A.with(|a| a.borrow().lenient) {
        let m = model(&cs);
        A.with(|a| a.borrow_mut().div0 = Some(m));
        panic!("division by zero");
    }
    false
}
impl Div for Sym {
    type Output = Sym;
    fn div(self, o: Sym) -> Sym {
        let (a, b) = (self.f(), o.f());
        let mut fs = vec![];
        factors(b.n, &mut fs);
        for &f in &fs {
            if !nonzero(f) {
                // Lenient: an unknown value stands for the infinity or NaN.
                let k = A.with(|a| a.borrow().vars.len());
                return Sym::var(&format!("unknown{k}"));
            }
        }
        let mut d = a.d;
        let mut scale = Rat::ONE;
        for f in fs {
            match is_const(f) {
                Some(k) => scale = scale.mul(k),
                None => *d.entry(f).or_insert(0) += 1,
            }
        }
        let n = mul(mul(cst(scale.inv()), a.n), den_poly(&b.d));
        reduced(n, d)
    }
}
pub fn exp(arg: Sym) -> Sym {
    if arg.as_const().is_some_and(|r| r.n == 0) {
        return Sym::i(1);
    }
    let known = A.with(|a| a.borrow().exps.clone());
    let same = |b: Sym| {
        b.0 == arg.0 || match Sym::ne(arg, b) {
            Cond::Rel(p, r) if is_const(p).is_none() => !sat_identity(Cond::Rel(p, r)),
            Cond::Rel(p, _) => is_const(p).unwrap().n == 0,
            _ => false,
        }
    };
    let k = known.iter().position(|&(b, _)| same(b)).unwrap_or_else(|| {
        let e = Sym::var(&format!("e{}", known.len()));
        A.with(|a| a.borrow_mut().exps.push((arg, e)));
        known.len()
    });
    let e = A.with(|a| a.borrow().exps[k].1);
    if A.with(|a| !a.borrow().exps_on_path.contains(&(k as u32))) {
        let (z, one) = (Sym::i(0), Sym::i(1));
        let facts = vec![
            Sym::lt(z, e),
            Cond::Any(vec![Sym::le(arg, z), Sym::lt(one, e)]),
            Cond::Any(vec![Sym::le(z, arg), Sym::lt(e, one)]),
            Cond::Any(vec![Sym::ne(arg, z), Sym::eq(e, one)]),
        ];
        A.with(|a| {
            let a = &mut *a.borrow_mut();
            a.exps_on_path.push(k as u32);
            a.path.extend(facts);
        });
    }
    e
}
/// The logarithm of a product of exponentials.
pub fn ln(v: Sym) -> Option<Sym> {
    let f = v.f();
    let mut top = vec![];
    factors(f.n, &mut top);
    let exps = A.with(|a| a.borrow().exps.clone());
    let arg = |p: P| exps.iter().find(|(_, e)| e.f().n == p).map(|&(a, _)| a);
    let mut sum = Sym::i(0);
    for p in top {
        match is_const(p) {
            Some(c) if c == Rat::ONE => {}
            Some(_) => return None,
            None => sum = sum + arg(p)?,
        }
    }
    for (p, k) in f.d {
        for _ in 0..k {
            sum = sum - arg(p)?;
        }
    }
    Some(sum)
}
impl Rem for Sym {
    type Output = Sym;
    fn rem(self, _: Sym) -> Sym {
        panic!("unsupported: rem")
    }
}
impl PartialEq for Sym {
    fn eq(&self, o: &Sym) -> bool {
        self.0 == o.0 || decide(Sym::eq(*self, *o))
    }
}
impl PartialOrd for Sym {
    fn partial_cmp(&self, o: &Sym) -> Option<Ordering> {
        Some(if decide(Sym::lt(*self, *o)) {
            Ordering::Less
        } else if decide(Sym::eq(*self, *o)) {
            Ordering::Equal
        } else {
            Ordering::Greater
        })
    }
    fn lt(&self, o: &Sym) -> bool {
        decide(Sym::lt(*self, *o))
    }
    fn le(&self, o: &Sym) -> bool {
        decide(Sym::le(*self, *o))
    }
    fn gt(&self, o: &Sym) -> bool {
        decide(Sym::lt(*o, *self))
    }
    fn ge(&self, o: &Sym) -> bool {
        decide(Sym::le(*o, *self))
    }
}
impl AddAssign for Sym {
    fn add_assign(&mut self, o: Sym) {
        *self = *self + o;
    }
}
impl SubAssign for Sym {
    fn sub_assign(&mut self, o: Sym) {
        *self = *self - o;
    }
}
impl MulAssign for Sym {
    fn mul_assign(&mut self, o: Sym) {
        *self = *self * o;
    }
}
impl DivAssign for Sym {
    fn div_assign(&mut self, o: Sym) {
        *self = *self / o;
    }
}
impl Default for Sym {
    fn default() -> Sym {
        Sym::i(0)
    }
}
impl Zero for Sym {
    fn zero() -> Sym {
        Sym::i(0)
    }
    fn is_zero(&self) -> bool {
        *self == Sym::i(0)
    }
}
impl One for Sym {
    fn one() -> Sym {
        Sym::i(1)
    }
}
impl Num for Sym {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Sym, ()> {
        Err(())
    }
}
impl FromPrimitive for Sym {
    fn from_i64(n: i64) -> Option<Sym> {
        Some(Sym::i(n as i128))
    }
    fn from_u64(n: u64) -> Option<Sym> {
        Some(Sym::i(n as i128))
    }
    fn from_f64(n: f64) -> Option<Sym> {
        Rat::from_f64(n).map(Sym::c)
    }
}
impl ToPrimitive for Sym {
    fn to_i64(&self) -> Option<i64> {
        panic!("unsupported: to_i64")
    }
    fn to_u64(&self) -> Option<u64> {
        panic!("unsupported: to_u64")
    }
    fn to_f64(&self) -> Option<f64> {
        panic!("unsupported: to_f64")
    }
}
impl NumCast for Sym {
    fn from<T: ToPrimitive>(n: T) -> Option<Sym> {
        match n.to_i64() {
            Some(i) if n.to_f64() == Some(i as f64) => Some(Sym::i(i as i128)),
            _ => n.to_f64().and_then(Rat::from_f64).map(Sym::c),
        }
    }
}
macro_rules! unsupported {
    ($($k:ident)* ; $($u:ident)* ; $($b:ident)*) => {
        $(fn $k() -> Sym { panic!("unsupported: {}", stringify!($k)) })*
        $(fn $u(self) -> Sym { panic!("unsupported: {}", stringify!($u)) })*
        $(fn $b(self, _: Sym) -> Sym { panic!("unsupported: {}", stringify!($b)) })*
    };
}
impl Real for Sym {
    unsupported!(min_value max_value;
        floor ceil round trunc fract sqrt exp2 ln log2 log10 to_degrees to_radians cbrt sin cos tan asin acos atan exp_m1 ln_1p sinh cosh tanh asinh acosh atanh;
        powf log hypot atan2);
    /// A positive value, above 1 exactly where the argument is above 0.
    fn exp(self) -> Sym {
        exp(self)
    }
    fn epsilon() -> Sym {
        Sym::c(Rat::new(1, 1 << 52))
    }
    fn min_positive_value() -> Sym {
        Sym::c(Rat::new(1, 1 << 100))
    }
    fn abs_sub(self, o: Sym) -> Sym {
        if self <= o { Sym::i(0) } else { self - o }
    }
    fn abs(self) -> Sym {
        if self < Sym::i(0) { -self } else { self }
    }
    fn signum(self) -> Sym {
        if self < Sym::i(0) { Sym::i(-1) } else { Sym::i(1) }
    }
    fn is_sign_positive(self) -> bool {
        self >= Sym::i(0)
    }
    fn is_sign_negative(self) -> bool {
        self < Sym::i(0)
    }
    fn mul_add(self, a: Sym, b: Sym) -> Sym {
        self * a + b
    }
    fn recip(self) -> Sym {
        Sym::i(1) / self
    }
    fn powi(self, n: i32) -> Sym {
        let mut r = Sym::i(1);
        for _ in 0..n.unsigned_abs() {
            r = r * self;
        }
        if n < 0 { Sym::i(1) / r } else { r }
    }
    fn max(self, o: Sym) -> Sym {
        if self < o { o } else { self }
    }
    fn min(self, o: Sym) -> Sym {
        if o < self { o } else { self }
    }
    fn sin_cos(self) -> (Sym, Sym) {
        panic!("unsupported: sin_cos")
    }
}
impl Value for Sym {}
