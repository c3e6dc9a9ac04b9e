//! One Z3 process kept alive, driven by SMT-LIB text.
use crate::rat::Rat;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

pub struct Solver {
    _c: Child,
    i: ChildStdin,
    o: BufReader<ChildStdout>,
}
impl Solver {
    pub fn start() -> Solver {
        let mut c = ["z3-new", "z3"]
            .iter()
            .find_map(|b| Command::new(b).args(["-in", "-t:60000"]).stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().ok())
            .expect("unsupported: no z3");
        let i = c.stdin.take().unwrap();
        let o = BufReader::new(c.stdout.take().unwrap());
        let mut s = Solver { _c: c, i, o };
        s.send("(set-option :print-success false)");
        s
    }
    pub fn send(&mut self, t: &str) {
        if let Ok(p) = std::env::var("SYMVAL_DUMP") {
            use std::fs::OpenOptions;
            writeln!(OpenOptions::new().append(true).create(true).open(p).unwrap(), "{t}").unwrap();
        }
        writeln!(self.i, "{t}").expect("unsupported: z3 went away");
    }
    fn line(&mut self) -> String {
        self.i.flush().unwrap();
        let mut l = String::new();
        self.o.read_line(&mut l).expect("unsupported: z3 went away");
        let l = l.trim().to_string();
        if l.starts_with("(error") || l.is_empty() {
            panic!("unsupported: z3 reported {l}");
        }
        l
    }
    pub fn check(&mut self) -> String {
        self.send("(check-sat)");
        self.line()
    }
    /// For identities of polynomials: expand into sums of monomials first.
    pub fn check_som(&mut self) -> String {
        self.send("(check-sat-using (then (using-params simplify :som true :som_blowup 1000000) smt))");
        self.line()
    }
    pub fn value(&mut self, v: &str) -> Option<Rat> {
        self.send(&format!("(get-value ({v}))"));
        let mut t = self.line();
        while t.matches('(').count() != t.matches(')').count() {
            t.push(' ');
            t.push_str(&self.line());
        }
        let t = t.trim_start_matches('(').trim_start_matches('(');
        let t = t.strip_prefix(v)?.trim();
        let body = t.strip_suffix("))")?;
        parse(body.trim())
    }
}
fn parse(t: &str) -> Option<Rat> {
    if let Some(r) = t.strip_prefix("(-") {
        return parse(r.strip_suffix(')')?.trim()).map(Rat::neg);
    }
    if let Some(r) = t.strip_prefix("(/") {
        let r = r.strip_suffix(')')?.trim();
        let k = if r.starts_with('(') { r.find(')')? + 1 } else { r.find(' ')? };
        let (a, b) = (parse(r[..k].trim())?, parse(r[k..].trim())?);
        return Some(a.mul(b.inv()));
    }
    let i = t.strip_suffix(".0").unwrap_or(t);
    i.parse::<i128>().ok().map(Rat::int)
}
