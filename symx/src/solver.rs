//! A z3 process driven over a pipe.
use crate::z::{Q, Z};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

pub struct Solver {
    child: Child,
    inp: ChildStdin,
    out: Receiver<String>,
    pub buf: String,
    hist: String,
    pushed: bool,
    pub queries: u64,
    pub unknowns: u64,
    pub errors: u64,
    pub kills: u64,
    pub time: f64,
    pub timeout_ms: u64,
    cur_timeout: u64,
    pub log: Option<std::fs::File>,
}

#[derive(Clone, Debug)]
pub enum MVal {
    Exact(Q),
    /// algebraic number, enclosing interval
    Approx(f64),
}

fn spawn() -> (Child, ChildStdin, Receiver<String>) {
    let bin = std::env::var("SYMX_Z3").unwrap_or_else(|_| "z3-new".into());
    let mut child = Command::new(&bin)
        .args(["-in", "-smt2"])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap_or_else(|e| panic!("cannot start {bin}: {e}"));
    let inp = child.stdin.take().unwrap();
    let mut out = BufReader::new(child.stdout.take().unwrap());
    let (tx, rx) = channel();
    std::thread::spawn(move || loop {
        let mut s = String::new();
        match out.read_line(&mut s) {
            Ok(n) if n > 0 => {
                if tx.send(s).is_err() {
                    break;
                }
            }
            _ => break,
        }
    });
    (child, inp, rx)
}

impl Solver {
    pub fn new(timeout_ms: u64) -> Solver {
        let (child, inp, out) = spawn();
        let log = std::env::var("SYMX_SMTLOG").ok().map(|p| {
            std::fs::OpenOptions::new().create(true).append(true).open(p).unwrap()
        });
        let mut s = Solver {
            child,
            inp,
            out,
            buf: String::new(),
            hist: String::new(),
            pushed: false,
            queries: 0,
            unknowns: 0,
            errors: 0,
            kills: 0,
            time: 0.0,
            timeout_ms,
            cur_timeout: timeout_ms,
            log,
        };
        s.reset();
        s
    }
    fn preamble(&self) -> String {
        format!(
            "(reset)\n(set-option :timeout {})\n(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 20)\n(set-logic QF_NRA)\n",
            self.cur_timeout
        )
    }
    pub fn reset(&mut self) {
        self.buf = self.preamble();
        self.hist.clear();
        self.pushed = false;
    }
    pub fn set_timeout(&mut self, ms: u64) {
        if ms != self.cur_timeout {
            self.cur_timeout = ms;
            self.buf.push_str(&format!("(set-option :timeout {ms})\n"));
        }
    }
    /// permanent text of the current path
    pub fn send(&mut self, s: &str) {
        debug_assert!(!self.pushed);
        self.buf.push_str(s);
        self.buf.push('\n');
        self.hist.push_str(s);
        self.hist.push('\n');
    }
    pub fn push(&mut self) {
        self.buf.push_str("(push)\n");
        self.pushed = true;
    }
    pub fn pop(&mut self) {
        if self.pushed {
            self.buf.push_str("(pop)\n");
        }
        self.pushed = false;
    }
    pub fn tmp(&mut self, s: &str) {
        self.buf.push_str(s);
        self.buf.push('\n');
    }
    /// replace a stuck process; the permanent text is replayed and any push is dropped
    fn restart(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        let (c, i, o) = spawn();
        self.child = c;
        self.inp = i;
        self.out = o;
        self.buf = self.preamble();
        let h = self.hist.clone();
        self.buf.push_str(&h);
        self.pushed = false;
        self.kills += 1;
    }
    fn flush(&mut self) {
        if let Some(l) = &mut self.log {
            let _ = l.write_all(self.buf.as_bytes());
        }
        let _ = self.inp.write_all(self.buf.as_bytes());
        let _ = self.inp.flush();
        self.buf.clear();
    }
    fn line(&mut self) -> Option<String> {
        let lim = Duration::from_millis(self.cur_timeout * 3 / 2 + 1000);
        match self.out.recv_timeout(lim) {
            Ok(s) => Some(s.trim().to_string()),
            Err(_) => {
                self.restart();
                None
            }
        }
    }
    pub fn check(&mut self) -> Res {
        self.queries += 1;
        let t = Instant::now();
        self.buf.push_str("(check-sat)\n");
        self.flush();
        let r = loop {
            let Some(l) = self.line() else {
                self.unknowns += 1;
                break Res::Unknown;
            };
            match l.as_str() {
                "sat" => break Res::Sat,
                "unsat" => break Res::Unsat,
                "unknown" | "timeout" => {
                    self.unknowns += 1;
                    break Res::Unknown;
                }
                "" => continue,
                x => {
                    self.errors += 1;
                    self.unknowns += 1;
                    if std::env::var("SYMX_DEBUG").is_ok() {
                        eprintln!("solver said: {x}");
                    }
                    // an error line is inconclusive; the check-sat answer still follows
                    if !x.starts_with("(error") {
                        break Res::Unknown;
                    }
                    // swallow the eventual answer
                    loop {
                        let Some(l2) = self.line() else { break };
                        if l2 == "sat" || l2 == "unsat" || l2 == "unknown" || l2 == "timeout" {
                            break;
                        }
                    }
                    break Res::Unknown;
                }
            }
        };
        self.time += t.elapsed().as_secs_f64();
        r
    }
    fn sexpr(&mut self) -> Option<String> {
        let mut s = String::new();
        let mut depth = 0i32;
        loop {
            let n = s.len();
            let l = self.line()?;
            s.push_str(&l);
            s.push('\n');
            for c in s[n..].chars() {
                match c {
                    '(' => depth += 1,
                    ')' => depth -= 1,
                    _ => {}
                }
            }
            if depth <= 0 && !s.trim().is_empty() {
                return Some(s);
            }
        }
    }
    pub fn values(&mut self, names: &[String]) -> Option<Vec<MVal>> {
        if names.is_empty() {
            return Some(vec![]);
        }
        // exact rationals first
        self.buf.push_str("(set-option :pp.decimal false)\n");
        self.buf.push_str(&format!("(get-value ({}))\n", names.join(" ")));
        self.flush();
        let s = self.sexpr()?;
        if s.contains("root-obj") {
            self.buf.push_str("(set-option :pp.decimal true)\n");
            self.buf.push_str(&format!("(get-value ({}))\n", names.join(" ")));
            self.flush();
            let s2 = self.sexpr()?;
            let a = parse_values(&s);
            let b = parse_values(&s2);
            if a.len() == names.len() && b.len() == names.len() {
                return Some(
                    a.into_iter()
                        .zip(b)
                        .map(|(x, y)| match x {
                            Some(q) => MVal::Exact(q.0),
                            None => MVal::Approx(y.map(|q| q.0.to_f64()).unwrap_or(0.0)),
                        })
                        .collect(),
                );
            }
            return None;
        }
        let a = parse_values(&s);
        if a.len() != names.len() || a.iter().any(|x| x.is_none()) {
            return None;
        }
        Some(a.into_iter().map(|x| MVal::Exact(x.unwrap().0)).collect())
    }
}
impl Drop for Solver {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

#[derive(Debug, Clone)]
enum Sx {
    A(String),
    L(Vec<Sx>),
}
fn tok(s: &str) -> Vec<String> {
    let mut r = vec![];
    let mut cur = String::new();
    for c in s.chars() {
        if c == '(' || c == ')' || c.is_whitespace() {
            if !cur.is_empty() {
                r.push(std::mem::take(&mut cur));
            }
            if c == '(' || c == ')' {
                r.push(c.to_string());
            }
        } else {
            cur.push(c);
        }
    }
    if !cur.is_empty() {
        r.push(cur);
    }
    r
}
fn parse(t: &[String], i: &mut usize) -> Sx {
    if t[*i] == "(" {
        *i += 1;
        let mut v = vec![];
        while *i < t.len() && t[*i] != ")" {
            v.push(parse(t, i));
        }
        *i += 1;
        Sx::L(v)
    } else {
        *i += 1;
        Sx::A(t[*i - 1].clone())
    }
}
struct PV(Q);
fn num(s: &Sx) -> Option<Q> {
    match s {
        Sx::A(a) => {
            let a = a.trim_end_matches('?');
            if let Some((i, f)) = a.split_once('.') {
                let n = Z::from_dec(&format!("{}{}", i, f))?;
                Some(Q::new(n, Z::S(10).pow(f.len() as u32)))
            } else {
                Some(Q::new(Z::from_dec(a)?, Z::one()))
            }
        }
        Sx::L(l) => {
            if let Some(Sx::A(op)) = l.first() {
                match (op.as_str(), l.len()) {
                    ("-", 2) => {
                        let q = num(&l[1])?;
                        Some(Q { n: q.n.neg(), d: q.d })
                    }
                    ("/", 3) => {
                        let a = num(&l[1])?;
                        let b = num(&l[2])?;
                        Some(Q::new(a.n.mul(&b.d), a.d.mul(&b.n)))
                    }
                    _ => None,
                }
            } else {
                None
            }
        }
    }
}
fn parse_values(s: &str) -> Vec<Option<PV>> {
    let t = tok(s);
    if t.is_empty() {
        return vec![];
    }
    let mut i = 0;
    match parse(&t, &mut i) {
        Sx::L(v) => v
            .iter()
            .map(|p| match p {
                Sx::L(kv) if kv.len() == 2 => num(&kv[1]).map(PV),
                _ => None,
            })
            .collect(),
        _ => vec![],
    }
}
