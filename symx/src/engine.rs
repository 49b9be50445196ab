//! Path-wise symbolic execution engine: canonical values over a tower of
//! algebraic variables, branch decisions settled by the SMT solver.
use crate::icp::*;
use crate::poly::*;
use crate::solver::*;
use crate::z::{next_down, next_up, Q, Z};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub const NEG: u8 = 1;
pub const ZERO: u8 = 2;
pub const POS: u8 = 4;
pub const ANY: u8 = 7;

pub fn flip_mask(m: u8) -> u8 {
    (m & ZERO) | if m & NEG != 0 { POS } else { 0 } | if m & POS != 0 { NEG } else { 0 }
}

/// panic payload that ends a path without being a finding
pub struct Abort(pub String);
pub fn abort(msg: impl Into<String>) -> ! {
    std::panic::resume_unwind(Box::new(Abort(msg.into())))
}

#[derive(Clone, Debug)]
pub struct Frac {
    pub n: Poly,
    pub dc: Z,
    pub den: Vec<(u32, u8)>,
}

#[derive(Clone, Debug)]
pub enum V {
    F(Rc<Frac>),
    NaN,
    Inf(bool), // true = positive
}

#[derive(Clone, Debug)]
pub enum Kind {
    Input { lo: Q, hi: Q, name: String },
    Sqrt(Poly),
    Pi,
    /// constant known by an enclosure only
    Enc,
    Alpha(Poly, Poly), // direction (x, y), x > 0, y > 0: angle in (0, pi/2)
}
pub struct Var {
    pub kind: Kind,
    pub iv: (f64, f64),
    pub hint: (f64, f64),
    pub konst: bool,
    pub declared: bool,
}

#[derive(Clone, Debug)]
pub struct Item {
    pub trace: Vec<u8>,
    pub model: Vec<MVal>,
    /// inputs replaced by constants (restart of a path that pins them)
    pub fix: std::collections::BTreeMap<usize, Q>,
}

#[derive(Clone, Debug)]
pub enum Bf {
    True,
    False,
    Atom(Poly, u8),
    And(Vec<Bf>),
    Or(Vec<Bf>),
    Xor(Vec<Bf>),
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub branches: u64,
    pub implied: u64,
    pub splits: u64,
    pub interval: u64,
    pub checks: u64,
    pub checks_interval: u64,
    pub check_queries: u64,
    pub max_vars: usize,
    pub unknown: u64,
    pub spurious: u64,
    pub icp_queries: u64,
    pub icp_sat: u64,
    pub icp_unsat: u64,
    pub icp_time: f64,
    pub slivers: u64,
    pub sliver_width: f64,
}

#[derive(Clone, Debug)]
pub struct Cex {
    pub what: String,
    pub model: Vec<MVal>,
    pub panic: bool,
}

pub struct Eng {
    pub vars: Vec<Var>,
    sqrt_map: HashMap<Poly, usize>,
    identities: HashMap<Poly, bool>,
    alpha_map: HashMap<(Poly, Poly), usize>,
    pi: Option<usize>,
    enc_map: HashMap<String, (usize, usize)>,
    angle_mask: u64,
    pub factors: Vec<Poly>,
    factor_map: HashMap<Poly, u32>,
    memo: HashMap<Poly, u8>,
    pub vals: Vec<V>,
    pub trace: Vec<u8>,
    pub trace_in: usize,
    pub pos: usize,
    pub solver: Solver,
    pub model: Vec<MVal>,
    pub pushed: Vec<Item>,
    pub fix: BTreeMap<usize, Q>,
    pins: Vec<(usize, Q)>,
    pub stats: Stats,
    pub cexs: Vec<Cex>,
    pub incomplete: Vec<String>,
    pub note: u64,
    pub sort_keys: u32,
    pub watch: Vec<u32>,
    pub notes: Vec<u64>,
    pub frozen: bool,
    pub max_decisions: usize,
    pub failed: std::collections::BTreeSet<String>,
    pub depth_guard: u32,
    pub cdefs: Vec<CDef>,
    pub cpc: Vec<CBf>,
    pub pcs: Vec<String>,
    pub pcb: Vec<Bf>,
    pub pc_hard: bool,
    pub timeout_ms: u64,
    pub ops: u64,
    pub fuzz_k: u32,
    pub deadline: std::time::Instant,
    pub path_limit: std::time::Duration,
}

static SLOW: std::sync::LazyLock<bool> = std::sync::LazyLock::new(|| std::env::var("SYMX_SLOW").is_ok());
thread_local! {
    pub static ENG: RefCell<Option<Eng>> = const { RefCell::new(None) };
}
pub fn with<R>(f: impl FnOnce(&mut Eng) -> R) -> R {
    ENG.with(|e| {
        let mut b = match e.try_borrow_mut() {
            Ok(b) => b,
            Err(_) => panic!("engine re-entered"),
        };
        f(b.as_mut().expect("no engine"))
    })
}

fn vname(i: usize) -> String {
    format!("v{}", i)
}

impl Eng {
    pub fn new(timeout_ms: u64) -> Eng {
        Eng {
            vars: vec![],
            sqrt_map: HashMap::new(),
            identities: HashMap::new(),
            alpha_map: HashMap::new(),
            pi: None,
            enc_map: HashMap::new(),
            angle_mask: 0,
            factors: vec![],
            factor_map: HashMap::new(),
            memo: HashMap::new(),
            vals: vec![],
            trace: vec![],
            trace_in: 0,
            pos: 0,
            solver: Solver::new(timeout_ms),
            model: vec![],
            pushed: vec![],
            fix: BTreeMap::new(),
            pins: vec![],
            stats: Stats::default(),
            cexs: vec![],
            incomplete: vec![],
            note: 0,
            sort_keys: 0,
            watch: vec![],
            notes: vec![],
            frozen: false,
            max_decisions: 20000,
            failed: Default::default(),
            depth_guard: 0,
            cdefs: vec![],
            cpc: vec![],
            pcs: vec![],
            pcb: vec![],
            pc_hard: false,
            timeout_ms,
            ops: 0,
            fuzz_k: 0,
            deadline: std::time::Instant::now(),
            path_limit: std::time::Duration::from_secs(30),
        }
    }
    pub fn start(&mut self, item: &Item) {
        self.ops = 0;
        self.fuzz_k = 0;
        self.deadline = std::time::Instant::now() + self.path_limit;
        self.vars.clear();
        self.cdefs.clear();
        self.cpc.clear();
        self.pcs.clear();
        self.pcb.clear();
        self.pc_hard = false;
        self.sqrt_map.clear();
        self.identities.clear();
        self.alpha_map.clear();
        self.pi = None;
        self.enc_map.clear();
        self.angle_mask = 0;
        self.factors.clear();
        self.factor_map.clear();
        self.memo.clear();
        self.vals.clear();
        self.trace = item.trace.clone();
        self.trace_in = item.trace.len();
        self.pos = 0;
        self.model = item.model.clone();
        self.fix = item.fix.clone();
        self.pins.clear();
        self.pushed.clear();
        self.cexs.clear();
        self.incomplete.clear();
        self.note = 0;
        self.sort_keys = 0;
        self.watch.clear();
        self.notes.clear();
        self.failed.clear();
        self.solver.reset();
    }
    pub fn put(&mut self, v: V) -> u32 {
        self.ops += 1;
        if self.ops % 64 == 0 {
            self.tick();
        }
        if self.ops > 3_000_000 {
            abort("operation limit");
        }
        self.vals.push(v);
        (self.vals.len() - 1) as u32
    }
    pub fn tick(&self) {
        if std::time::Instant::now() > self.deadline {
            abort("path time limit");
        }
    }
    pub fn get(&self, i: u32) -> V {
        self.vals[i as usize].clone()
    }

    // ---------- variables ----------
    fn add_var(&mut self, kind: Kind, iv: (f64, f64), hint: (f64, f64), konst: bool) -> usize {
        let i = self.vars.len();
        if i >= NV {
            abort("too many algebraic variables");
        }
        if matches!(kind, Kind::Pi | Kind::Alpha(..)) {
            self.angle_mask |= 1 << i;
        }
        self.cdefs.push(match &kind {
            Kind::Input { .. } => CDef::Input,
            Kind::Sqrt(p) => CDef::Sqrt(CPoly::new(p)),
            Kind::Pi | Kind::Enc => CDef::Fixed,
            Kind::Alpha(x, y) => CDef::Alpha(CPoly::new(x), CPoly::new(y)),
        });
        self.vars.push(Var {
            kind,
            iv,
            hint,
            konst,
            declared: false,
        });
        self.stats.max_vars = self.stats.max_vars.max(i + 1);
        i
    }
    fn q_iv(q: &Q) -> (f64, f64) {
        let v = q.to_f64();
        if Q::from_f64_exact(v) == *q {
            (v, v)
        } else {
            (next_down(next_down(v)), next_up(next_up(v)))
        }
    }
    pub fn input(&mut self, name: &str, lo: Q, hi: Q) -> usize {
        let k = self.vars.len();
        let (mut lo, mut hi) = (lo, hi);
        if let Some(q) = self.fix.get(&k).cloned() {
            (lo, hi) = (q.clone(), q.clone());
            if self.model.len() > k {
                self.model[k] = MVal::Exact(q);
            }
        }
        let iv = (Self::q_iv(&lo).0, Self::q_iv(&hi).1);
        if self.model.len() <= k {
            // default start: an unremarkable interior point
            let w = Q::new(Z::S(3819660113 + 7919 * k as i64), Z::S(10_000_000_000));
            let m = lo.add(&hi.sub(&lo).mul(&w));
            self.model.push(MVal::Exact(m));
        }
        let hint = Self::mval_iv(&self.model[k]);
        self.add_var(
            Kind::Input {
                lo,
                hi,
                name: name.to_string(),
            },
            iv,
            hint,
            false,
        )
    }
    fn mval_iv(m: &MVal) -> (f64, f64) {
        match m {
            MVal::Exact(q) => Self::q_iv(q),
            MVal::Approx(f) => (f - 1e-12 * (1.0 + f.abs()), f + 1e-12 * (1.0 + f.abs())),
        }
    }
    pub fn boxes(&self) -> Vec<(f64, f64)> {
        self.vars.iter().map(|v| v.iv).collect()
    }
    pub fn hints(&self) -> Vec<(f64, f64)> {
        self.vars.iter().map(|v| v.hint).collect()
    }
    pub fn alpha_iv(x: (f64, f64), y: (f64, f64)) -> (f64, f64) {
        let hp = std::f64::consts::FRAC_PI_2 + 1e-15;
        let lo = if x.1 <= 0.0 { 0.0 } else { y.0.max(0.0).atan2(x.1) };
        let hi = if x.0 <= 0.0 { hp } else { y.1.max(0.0).atan2(x.0.max(0.0)) };
        ((lo - 1e-15).max(0.0), (hi + 1e-15).min(hp))
    }
    fn rehint(&mut self) {
        for i in 0..self.vars.len() {
            let h = self.hints();
            let nh = match &self.vars[i].kind {
                Kind::Input { .. } => Self::mval_iv(&self.model[i]),
                Kind::Sqrt(p) => isqrt(p.eval_ival(&h)),
                Kind::Pi | Kind::Enc => self.vars[i].hint,
                Kind::Alpha(x, y) => Self::alpha_iv(x.eval_ival(&h), y.eval_ival(&h)),
            };
            self.vars[i].hint = nh;
        }
    }
    pub fn n_inputs(&self) -> usize {
        self.vars
            .iter()
            .filter(|v| matches!(v.kind, Kind::Input { .. }))
            .count()
    }
    pub fn pi_var(&mut self) -> usize {
        if let Some(p) = self.pi {
            return p;
        }
        let p = std::f64::consts::PI;
        let iv = (p, next_up(p));
        let i = self.add_var(Kind::Pi, iv, iv, true);
        self.pi = Some(i);
        i
    }
    fn is_const_mask(&self, used: u64) -> bool {
        for i in 0..self.vars.len() {
            if used >> i & 1 == 1 && !self.vars[i].konst {
                return false;
            }
        }
        true
    }

    // ---------- polynomials modulo the tower ----------
    pub fn reduce(&self, mut p: Poly) -> Poly {
        loop {
            let mut big = None;
            for (i, v) in self.vars.iter().enumerate().rev() {
                if let Kind::Sqrt(_) = v.kind {
                    if p.max_exp(i) >= 2 {
                        big = Some(i);
                        break;
                    }
                }
            }
            let Some(i) = big else { return p };
            let Kind::Sqrt(rad) = &self.vars[i].kind else {
                unreachable!()
            };
            let cs = p.coeffs_in(i);
            let mut pw = Poly::one();
            let mut r = Poly::zero();
            for (e, c) in cs.iter().enumerate() {
                if e > 0 && e % 2 == 0 {
                    pw = self.reduce(pw.mul_raw(rad));
                }
                if c.is_zero() {
                    continue;
                }
                let mut t = c.mul_raw(&pw);
                if e % 2 == 1 {
                    t = t.mul_term(&Mono::var(i), &Z::one());
                }
                r = r.add(&t);
            }
            p = r;
        }
    }
    pub fn pmul(&self, a: &Poly, b: &Poly) -> Poly {
        let r = a.mul_raw(b);
        self.reduce(r)
    }
    fn ppow(&self, a: &Poly, e: u32) -> Poly {
        let mut r = Poly::one();
        for _ in 0..e {
            r = self.pmul(&r, a);
        }
        r
    }

    // ---------- fractions ----------
    pub fn fint(&self, q: &Q) -> Frac {
        Frac {
            n: Poly::konst(q.n.clone()),
            dc: q.d.clone(),
            den: vec![],
        }
    }
    fn norm(&self, mut n: Poly, mut dc: Z, mut den: Vec<(u32, u8)>) -> Frac {
        if n.is_zero() {
            return Frac {
                n,
                dc: Z::one(),
                den: vec![],
            };
        }
        let mut k = 0;
        while k < den.len() {
            while den[k].1 > 0 {
                let f = &self.factors[den[k].0 as usize];
                if let Some(q) = n.div_exact(f) {
                    n = q;
                    den[k].1 -= 1;
                } else {
                    break;
                }
            }
            if den[k].1 == 0 {
                den.remove(k);
            } else {
                k += 1;
            }
        }
        if !dc.is_one() {
            let g = n.content().gcd(&dc);
            if !g.is_one() {
                n = n.div_const(&g);
                dc = dc.divexact(&g);
            }
        }
        Frac { n, dc, den }
    }
    fn fac_prod(&self, d: &[(u32, u8)]) -> Poly {
        let mut r = Poly::one();
        for (f, e) in d {
            r = self.pmul(&r, &self.ppow(&self.factors[*f as usize], *e as u32));
        }
        r
    }
    pub fn fadd(&self, a: &Frac, b: &Frac, sub: bool) -> Frac {
        if b.n.is_zero() {
            return a.clone();
        }
        let comb = |x: &Poly, y: &Poly| if sub { x.sub(y) } else { x.add(y) };
        if a.den == b.den && a.dc == b.dc {
            return self.norm(comb(&a.n, &b.n), a.dc.clone(), a.den.clone());
        }
        // lcm of denominators
        let mut lcm: BTreeMap<u32, u8> = a.den.iter().cloned().collect();
        for (f, e) in &b.den {
            let x = lcm.entry(*f).or_insert(0);
            *x = (*x).max(*e);
        }
        let need = |d: &Vec<(u32, u8)>| -> Vec<(u32, u8)> {
            lcm.iter()
                .filter_map(|(f, e)| {
                    let h = d.iter().find(|(g, _)| g == f).map(|x| x.1).unwrap_or(0);
                    if *e > h {
                        Some((*f, *e - h))
                    } else {
                        None
                    }
                })
                .collect()
        };
        let (na, nb) = (need(&a.den), need(&b.den));
        let g = a.dc.gcd(&b.dc);
        let ka = b.dc.divexact(&g);
        let kb = a.dc.divexact(&g);
        let dc = a.dc.mul(&ka);
        let pa = self.pmul(&a.n.scale(&ka), &self.fac_prod(&na));
        let pb = self.pmul(&b.n.scale(&kb), &self.fac_prod(&nb));
        self.norm(comb(&pa, &pb), dc, lcm.into_iter().collect())
    }
    pub fn fmul(&self, a: &Frac, b: &Frac) -> Frac {
        if a.n.is_zero() {
            return a.clone();
        }
        if b.n.is_zero() {
            return b.clone();
        }
        // cancel across before multiplying
        let x = self.norm(a.n.clone(), b.dc.clone(), b.den.clone());
        let y = self.norm(b.n.clone(), a.dc.clone(), a.den.clone());
        let mut den: BTreeMap<u32, u8> = x.den.iter().cloned().collect();
        for (f, e) in &y.den {
            *den.entry(*f).or_insert(0) += *e;
        }
        let n = self.pmul(&x.n, &y.n);
        self.norm(n, x.dc.mul(&y.dc), den.into_iter().collect())
    }
    pub fn fneg(&self, a: &Frac) -> Frac {
        Frac {
            n: a.n.neg(),
            dc: a.dc.clone(),
            den: a.den.clone(),
        }
    }
    fn factor_id(&mut self, p: Poly) -> u32 {
        if let Some(i) = self.factor_map.get(&p) {
            return *i;
        }
        let i = self.factors.len() as u32;
        self.factors.push(p.clone());
        self.factor_map.insert(p, i);
        i
    }
    /// multiply frac by the inverse of polynomial p (sign decided on this path).
    /// None when p is zero on this path.
    fn fdiv_poly(&mut self, a: &Frac, p: &Poly) -> Option<Frac> {
        let (c, mut r) = p.primitive();
        if c.is_zero() {
            return None;
        }
        let mut n = a.n.clone();
        let mut dc = a.dc.clone();
        let mut neg = c.sign() < 0;
        dc = dc.mul(&c.abs());
        let mut den: BTreeMap<u32, u8> = a.den.iter().cloned().collect();
        // monomial factors
        let mc = r.mono_content();
        if !mc.is_one() {
            r = r.div_mono(&mc);
            for i in 0..self.vars.len() {
                let e = mc.0[i];
                if e == 0 {
                    continue;
                }
                let vp = Poly::var(i);
                let s = self.sign3(&vp);
                if s == 0 {
                    return None;
                }
                if let Kind::Sqrt(rad) = &self.vars[i].kind {
                    // 1/s = s/rad
                    let rad = rad.clone();
                    let fr = Frac {
                        n: self.pmul(&n, &vp),
                        dc,
                        den: den.into_iter().collect(),
                    };
                    let fr = self.fdiv_poly(&fr, &rad)?;
                    n = fr.n;
                    dc = fr.dc;
                    den = fr.den.into_iter().collect();
                    continue;
                }
                if s < 0 {
                    // keep factors positive: v^e = (-1)^e (-v)^e
                    if e % 2 == 1 {
                        neg = !neg;
                    }
                    let f = self.factor_id(vp.neg());
                    *den.entry(f).or_insert(0) += e;
                } else {
                    let f = self.factor_id(vp);
                    *den.entry(f).or_insert(0) += e;
                }
            }
        }
        // known factors
        if !r.is_const() {
            for k in 0..self.factors.len() {
                loop {
                    if r.is_const() {
                        break;
                    }
                    match r.div_exact(&self.factors[k]) {
                        Some(q) if !self.factors[k].is_const() => {
                            r = q;
                            *den.entry(k as u32).or_insert(0) += 1;
                        }
                        _ => break,
                    }
                }
            }
        }
        let fin = |s: &Self, n: Poly, dc: Z, den: BTreeMap<u32, u8>, neg: bool| {
            let (n, dc) = if dc.sign() < 0 { (n.neg(), dc.neg()) } else { (n, dc) };
            let n = if neg { n.neg() } else { n };
            s.norm(n, dc, den.into_iter().collect())
        };
        if let Some(c) = r.as_const() {
            if c.sign() < 0 {
                neg = !neg;
            }
            dc = dc.mul(&c.abs());
            return Some(fin(self, n, dc, den, neg));
        }
        // rationalise algebraic parts of the denominator
        let mut guard = 0;
        loop {
            guard += 1;
            if guard > 12 {
                break;
            }
            let used = r.used();
            let top = (0..self.vars.len())
                .rev()
                .find(|i| used >> i & 1 == 1 && matches!(self.vars[*i].kind, Kind::Sqrt(_)));
            let Some(v) = top else { break };
            let (pa, pb) = r.split_linear(v);
            let Kind::Sqrt(rad) = self.vars[v].kind.clone() else {
                unreachable!()
            };
            let nrm = self
                .pmul(&pa, &pa)
                .sub(&self.pmul(&self.pmul(&pb, &pb), &rad));
            if nrm.is_zero() {
                break;
            }
            let conj = pa.sub(&pb.mul_term(&Mono::var(v), &Z::one()));
            if !self.is_const_mask(used) && !self.nonzero_implied(&nrm) {
                break;
            }
            n = self.pmul(&n, &conj);
            let (c, q) = nrm.primitive();
            if c.sign() < 0 {
                neg = !neg;
            }
            dc = dc.mul(&c.abs());
            r = q;
            if r.is_const() {
                return Some(fin(self, n, dc, den, neg));
            }
            for k in 0..self.factors.len() {
                while !r.is_const() {
                    match r.div_exact(&self.factors[k]) {
                        Some(q) => {
                            r = q;
                            *den.entry(k as u32).or_insert(0) += 1;
                        }
                        _ => break,
                    }
                }
            }
            if let Some(c) = r.as_const() {
                if c.sign() < 0 {
                    neg = !neg;
                }
                dc = dc.mul(&c.abs());
                return Some(fin(self, n, dc, den, neg));
            }
        }
        let s = self.sign3(&r);
        if s == 0 {
            return None;
        }
        if s < 0 {
            neg = !neg;
            r = r.neg();
        }
        let (c, q) = {
            // primitive() would flip to a positive lead; keep the positive-valued orientation
            let g = r.content();
            let q = r.div_const(&g);
            (g, q)
        };
        dc = dc.mul(&c);
        let f = self.factor_id(q);
        *den.entry(f).or_insert(0) += 1;
        Some(fin(self, n, dc, den, neg))
    }
    pub fn fdiv(&mut self, a: &Frac, b: &Frac) -> V {
        // a/b = a * bden / bn
        if let Some(c) = b.n.as_const() {
            if !c.is_zero() {
                let mut n = a.n.clone();
                if c.sign() < 0 {
                    n = n.neg();
                }
                let t = Frac {
                    n,
                    dc: a.dc.mul(&c.abs()),
                    den: a.den.clone(),
                };
                let bd = Frac {
                    n: self.fac_prod(&b.den).scale(&b.dc),
                    dc: Z::one(),
                    den: vec![],
                };
                return V::F(Rc::new(self.fmul(&t, &bd)));
            }
        }
        let bd = Frac {
            n: self.fac_prod(&b.den).scale(&b.dc),
            dc: Z::one(),
            den: vec![],
        };
        let num = self.fmul(a, &bd);
        match self.fdiv_poly(&num, &b.n) {
            Some(f) => V::F(Rc::new(f)),
            None => match self.sign3(&a.n) {
                0 => V::NaN,
                s => V::Inf(s > 0),
            },
        }
    }

    // ---------- sqrt ----------
    pub fn fsqrt(&mut self, a: &Frac) -> V {
        if a.n.is_zero() {
            return V::F(Rc::new(a.clone()));
        }
        if !a.n.is_const() || a.n.0[0].1.sign() < 0 {
            let s = self.sign3(&a.n);
            if s < 0 {
                return V::NaN;
            }
            if s == 0 {
                return V::F(Rc::new(self.fint(&Q::int(0))));
            }
        }
        // sqrt(n/(dc*prod f^e)) = sqrt(n*dc*prod_{odd} f) / (dc * prod f^ceil(e/2))
        let odd: Vec<(u32, u8)> = a
            .den
            .iter()
            .filter(|(_, e)| e % 2 == 1)
            .map(|(f, _)| (*f, 1))
            .collect();
        let rad = self.pmul(&a.n.scale(&a.dc), &self.fac_prod(&odd));
        let den: Vec<(u32, u8)> = a.den.iter().map(|(f, e)| (*f, e.div_ceil(2))).collect();
        let (out, rest, div) = self.square_part(&rad);
        // result = |out| * sqrt(rest) / div
        let mut n = out;
        if !rest.is_one() {
            let v = self.sqrt_var(rest);
            n = self.pmul(&n, &Poly::var(v));
        }
        V::F(Rc::new(self.norm(n, a.dc.mul(&div), den)))
    }
    /// p = out^2 * rest / div^2 with out >= 0 on this path
    fn square_part(&mut self, p: &Poly) -> (Poly, Poly, Z) {
        let (c, mut r) = p.primitive();
        let mut c = c;
        if c.sign() < 0 {
            c = c.neg();
            r = r.neg();
        }
        let mut out = Poly::one();
        // integer content
        let mut ko = Z::one();
        if let Some(s) = c.perfect_sqrt() {
            ko = s;
            c = Z::one();
        } else {
            for q in [2i64, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37] {
                let q2 = Z::S(q * q);
                while c.divisible(&q2) {
                    c = c.divexact(&q2);
                    ko = ko.mul(&Z::S(q));
                }
            }
            if let Some(s) = c.perfect_sqrt() {
                ko = ko.mul(&s);
                c = Z::one();
            } else {
                for q in [2i64, 3, 5, 6, 7, 10, 13, 17] {
                    let qz = Z::S(q);
                    if c.divisible(&qz) {
                        if let Some(s) = c.divexact(&qz).perfect_sqrt() {
                            ko = ko.mul(&s);
                            c = qz;
                            break;
                        }
                    }
                }
            }
        }
        out = out.scale(&ko);
        // even monomial powers
        let mc = r.mono_content();
        for i in 0..self.vars.len() {
            let e = mc.0[i];
            if e >= 2 {
                let h = e / 2;
                let mut m = Mono::ONE;
                m.0[i] = 2 * h;
                r = r.div_mono(&m);
                let s = self.sign3(&Poly::var(i));
                let mut v = Poly::var(i);
                if s < 0 {
                    v = v.neg();
                }
                let f = self.ppow(&v, h as u32);
                out = self.pmul(&out, &f);
            }
        }
        // known positive factors, squared
        if r.total_degree() >= 2 {
            for k in 0..self.factors.len() {
                let f = self.factors[k].clone();
                if f.is_const() {
                    continue;
                }
                loop {
                    let Some(q) = r.div_exact(&f) else { break };
                    let Some(q2) = q.div_exact(&f) else { break };
                    r = q2;
                    out = self.pmul(&out, &f);
                }
            }
        }
        if r.is_const() {
            let k = r.as_const().unwrap();
            return (out, Poly::konst(k.mul(&c)), Z::one());
        }
        if let Some(g) = r.perfect_sqrt() {
            let s = self.sign3(&g);
            let g = if s < 0 { g.neg() } else { g };
            out = self.pmul(&out, &g);
            return (out, Poly::konst(c), Z::one());
        }
        // square with respect to one variable: a v^2 + b v + c0 with zero discriminant is covered
        // by perfect_sqrt when the content is a square; try content k: k*r' = k*g^2
        // (primitive polynomials that are non-square constants times squares cannot occur)
        // denest sqrt(A + B*s) over constants
        if let Some((o, rest)) = self.denest(&r) {
            let out2 = self.pmul(&out, &o);
            let (o3, r3) = (out2, self.pmul(&rest, &Poly::konst(c)));
            // rest is a constant integer here
            if let Some(k) = r3.as_const() {
                if let Some(s) = k.perfect_sqrt() {
                    return (o3.scale(&s), Poly::one(), Z::one());
                }
            }
            return (o3, r3, Z::one());
        }
        if let Some((g, rest, div)) = self.denest_univ(&r) {
            let s = self.sign3(&g);
            let g = if s < 0 { g.neg() } else { g };
            out = self.pmul(&out, &g);
            let (o2, r2, d2) = self.square_part(&rest.scale(&c));
            return (self.pmul(&out, &o2), r2, d2.mul(&div));
        }
        (out, r.scale(&c), Z::one())
    }
    /// The same with polynomials in one input x instead of constants: r = A(x) + B(x) s,
    /// s = sqrt(S(x)). Result (g, rest, d): r = g^2 rest / d^2.
    fn denest_univ(&self, r: &Poly) -> Option<(Poly, Poly, Z)> {
        let used = r.used();
        if used.count_ones() > 2 || used == 0 {
            return None;
        }
        let s = 63 - used.leading_zeros() as usize;
        let Kind::Sqrt(rad) = self.vars[s].kind.clone() else {
            return None;
        };
        let ru = rad.used();
        if ru.count_ones() != 1 || (used | ru).count_ones() != 2 {
            return None;
        }
        let x = ru.trailing_zeros() as usize;
        if !matches!(self.vars[x].kind, Kind::Input { .. }) {
            return None;
        }
        let (a, b) = r.split_linear(s);
        if a.is_zero() || b.is_zero() {
            return None;
        }
        let g = ugcd(&a.univ_groups(x)[0], &b.univ_groups(x)[0]);
        let g = Poly::from_univ(x, &g);
        let (a, b) = (a.div_exact(&g)?, b.div_exact(&g)?);
        let d = a.mul_raw(&a).sub(&b.mul_raw(&b).mul_raw(&rad)).perfect_sqrt()?;
        let (cs, s1) = rad.primitive();
        for (p, q) in [(a.add(&d), a.sub(&d)), (a.sub(&d), a.add(&d))] {
            if p.is_zero() || q.is_zero() {
                continue;
            }
            let (c1, p1) = p.primitive();
            let (c2, q1) = q.primitive();
            let Some(ra) = p1.perfect_sqrt() else { continue };
            let Some(q2) = q1.div_exact(&s1) else { continue };
            let Some(rb) = q2.perfect_sqrt() else { continue };
            let Some(m) = c1.mul(&c2).mul(&cs).perfect_sqrt() else { continue };
            let n = c1.mul(&cs);
            for m in [m.clone(), m.neg()] {
                let gg = ra.scale(&n).add(&rb.scale(&m).mul_raw(&Poly::var(s))).primitive().1;
                let g2 = self.pmul(&gg, &gg);
                // a + b s = k g2 with a rational k?
                let ab = a.add(&b.mul_raw(&Poly::var(s)));
                let (ka, pa) = ab.primitive();
                let (kb, pb) = g2.primitive();
                let (num, pa) = if pa == pb { (ka, pa) } else { (ka.neg(), pa.neg()) };
                if pa != pb {
                    continue;
                }
                // k = num / kb: r = g gg^2 num kb / kb^2
                let div = if kb.sign() < 0 { kb.neg() } else { kb.clone() };
                return Some((gg, g.scale(&num.mul(&kb)), div));
            }
        }
        None
    }

    /// sqrt(A + B s) = sqrt(u) + sgn(B) sqrt(w), u,w = (A +- D)/2, D^2 = A^2 - B^2 rad, when the
    /// result is expressible as (p + q s) with rational multiples: try g = x + y s.
    fn denest(&mut self, r: &Poly) -> Option<(Poly, Poly)> {
        let used = r.used();
        if used.count_ones() != 1 || !self.is_const_mask(used) {
            return None;
        }
        let v = used.trailing_zeros() as usize;
        let Kind::Sqrt(rad) = self.vars[v].kind.clone() else {
            return None;
        };
        let rad = rad.as_const()?;
        let (a, b) = r.split_linear(v);
        let (a, b) = (a.as_const()?, b.as_const()?);
        let d2 = a.mul(&a).sub(&b.mul(&b).mul(&rad));
        let d = d2.perfect_sqrt()?;
        // u = (a+d)/2, w = (a-d)/2; sqrt(r) = sqrt(u) + sgn(b) sqrt(w); u*w = b^2 rad/4.
        // Multiply by sqrt(2): sqrt(2u)=sqrt(a+d), sqrt(2w)=sqrt(a-d):
        // r = ((a+d) + (a-d))/2 + ..., so sqrt(r) = (sqrt(a+d) + sgn sqrt(a-d))/sqrt 2
        for (p, q) in [(a.add(&d), a.sub(&d)), (a.sub(&d), a.add(&d))] {
            // case: p = 2*x^2 (so sqrt(p)/sqrt2 = x) and q = 2*y^2*rad
            if p.divisible(&Z::S(2)) && q.divisible(&Z::S(2)) {
                if let Some(x) = p.divexact(&Z::S(2)).perfect_sqrt() {
                    let q2 = q.divexact(&Z::S(2));
                    if q2.divisible(&rad) {
                        if let Some(y) = q2.divexact(&rad).perfect_sqrt() {
                            // g = x + sgn(b) y s, choose overall positive sign
                            let ysg = if b.sign() < 0 { y.neg() } else { y };
                            let g = Poly::konst(x).add(&Poly::var(v).scale(&ysg));
                            if self.pmul(&g, &g) == *r {
                                let s = self.sign3(&g);
                                let g = if s < 0 { g.neg() } else { g };
                                return Some((g, Poly::one()));
                            }
                        }
                    }
                }
            }
        }
        None
    }
    fn sqrt_var(&mut self, rad: Poly) -> usize {
        if let Some(v) = self.sqrt_map.get(&rad) {
            return *v;
        }
        let iv = isqrt(rad.eval_ival(&self.boxes()));
        let hint = isqrt(rad.eval_ival(&self.hints()));
        let konst = self.is_const_mask(rad.used());
        if *SLOW {
            eprintln!("sqrt var {} = sqrt {:?}", self.vars.len(), rad);
        }
        let v = self.add_var(Kind::Sqrt(rad.clone()), iv, hint, konst);
        self.sqrt_map.insert(rad, v);
        v
    }

    // ---------- sign decisions ----------
    /// a non-trivial factor of r that depends on a single input variable
    fn univ_factor(&self, r: &Poly) -> Option<Poly> {
        let used = r.used();
        let mut x = None;
        for i in 0..self.vars.len() {
            if used >> i & 1 == 1 {
                match self.vars[i].kind {
                    Kind::Input { .. } => {
                        if x.is_some() {
                            return None;
                        }
                        x = Some(i);
                    }
                    _ => {}
                }
            }
        }
        let x = x?;
        if r.max_exp(x) < 2 {
            if used == 1 << x {
                return None;
            }
        }
        let gs = r.univ_groups(x);
        let g = if gs.len() == 1 && used == 1 << x {
            // purely univariate: repeated factors
            let d: Vec<Z> = gs[0]
                .iter()
                .enumerate()
                .skip(1)
                .map(|(i, c)| c.mul(&Z::S(i as i64)))
                .collect();
            ugcd(&gs[0], &d)
        } else {
            let mut g = gs[0].clone();
            for h in &gs[1..] {
                g = ugcd(&g, h);
                if g.len() <= 1 {
                    return None;
                }
            }
            g
        };
        if g.len() <= 1 {
            return None;
        }
        let g = Poly::from_univ(x, &g).primitive().1;
        if g.total_degree() >= r.total_degree() {
            return None;
        }
        Some(g)
    }
    /// normal form of p for sign purposes: (flip, primitive stripped poly); None if constant
    fn sign_norm(&mut self, p: &Poly) -> Result<(bool, Poly), i32> {
        let (c, mut r) = p.primitive();
        if c.is_zero() {
            return Err(0);
        }
        let mut flip = c.sign() < 0;
        if r.is_const() {
            return Err(if flip { -1 } else { 1 });
        }
        let mc = r.mono_content();
        if !mc.is_one() {
            let mut strip = Mono::ONE;
            for i in 0..self.vars.len() {
                let e = mc.0[i];
                if e == 0 {
                    continue;
                }
                let iv = self.vars[i].iv;
                let m = if iv.0 > 0.0 {
                    POS
                } else if iv.1 < 0.0 {
                    NEG
                } else {
                    self.memo.get(&Poly::var(i)).cloned().unwrap_or(ANY)
                };
                if m == POS || m == NEG {
                    strip.0[i] = e;
                    if m == NEG && e % 2 == 1 {
                        flip = !flip;
                    }
                }
            }
            if !strip.is_one() {
                r = r.div_mono(&strip);
                if r.is_const() {
                    return Err(if flip { -1 } else { 1 });
                }
            }
        }
        for k in 0..self.factors.len() {
            if self.factors[k].is_const() {
                continue;
            }
            while let Some(q) = r.div_exact(&self.factors[k]) {
                r = q;
                if let Some(c) = r.as_const() {
                    let s = c.sign();
                    return Err(if flip { -s } else { s });
                }
            }
        }
        let (c, r) = r.primitive();
        if c.sign() < 0 {
            flip = !flip;
        }
        Ok((flip, r))
    }
    /// possible signs of p on this path without asking the solver
    pub fn quick_mask(&mut self, p: &Poly) -> u8 {
        let (flip, r) = match self.sign_norm(p) {
            Err(s) => {
                return match s {
                    0 => ZERO,
                    1 => POS,
                    _ => NEG,
                }
            }
            Ok(x) => x,
        };
        let m = self.mask_of(&r);
        if flip {
            flip_mask(m)
        } else {
            m
        }
    }
    fn mask_of(&mut self, r: &Poly) -> u8 {
        if let Some(m) = self.memo.get(r) {
            return *m;
        }
        let iv = r.eval_ival(&self.boxes());
        let mut m = ANY;
        if iv.0 > 0.0 {
            m = POS;
        } else if iv.1 < 0.0 {
            m = NEG;
        } else if iv.0 >= 0.0 {
            m = POS | ZERO;
        } else if iv.1 <= 0.0 {
            m = NEG | ZERO;
        }
        self.memo.insert(r.clone(), m);
        m
    }
    pub fn sign3(&mut self, p: &Poly) -> i32 {
        if self.decide(p, NEG) {
            -1
        } else if self.decide(p, ZERO) {
            0
        } else {
            1
        }
    }
    /// is p != 0 on every valuation of this path (never splits)
    pub fn nonzero_implied(&mut self, p: &Poly) -> bool {
        let m = self.quick_mask(p);
        if m & ZERO == 0 {
            return true;
        }
        if m == ZERO {
            return false;
        }
        if p.used() & self.angle_mask != 0 {
            return false;
        }
        let (_, r) = match self.sign_norm(p) {
            Err(s) => return s != 0,
            Ok(x) => x,
        };
        // recorded in the trace so that replays take the same route
        if self.pos < self.trace.len() {
            let t = self.trace[self.pos];
            self.pos += 1;
            return t & 1 == 1;
        }
        let ans = self.query(&Bf::Atom(r.clone(), ZERO)).0 == Res::Unsat;
        self.trace.push(if ans { 1 } else { 0 });
        self.pos += 1;
        ans
    }
    /// Is r zero wherever its square roots exist? By multiplying with conjugates: a + b s and
    /// a - b s multiply to a polynomial in fewer roots; when that vanishes identically and
    /// a - b s does not vanish, a + b s does. (Never splits; false when in doubt.)
    fn identity_zero(&mut self, r: &Poly) -> bool {
        if r.is_zero() {
            return true;
        }
        let used = r.used();
        if used & self.angle_mask != 0 {
            return false;
        }
        let Some(s) = (0..self.vars.len()).rev().find(|i| used >> i & 1 == 1 && matches!(self.vars[*i].kind, Kind::Sqrt(_))) else {
            return false;
        };
        if let Some(k) = self.identities.get(r) {
            return *k;
        }
        let k = self.identity_zero_at(r, s);
        self.identities.insert(r.clone(), k);
        k
    }
    fn identity_zero_at(&mut self, r: &Poly, s: usize) -> bool {
        let iv = r.eval_ival(&self.hints());
        if iv.0 > 0.0 || iv.1 < 0.0 {
            return false;
        }
        let Kind::Sqrt(rad) = self.vars[s].kind.clone() else {
            return false;
        };
        let (a, b) = r.split_linear(s);
        if a.0.len() * a.0.len() + b.0.len() * b.0.len() * rad.0.len() > 400_000 || 2 * a.total_degree().max(b.total_degree() + rad.total_degree()) > 200 {
            return false;
        }
        self.tick();
        let n = self.reduce(a.mul_raw(&a).sub(&b.mul_raw(&b).mul_raw(&rad)));
        if !self.identity_zero(&n) {
            return false;
        }
        let conj = a.sub(&b.mul_raw(&Poly::var(s)));
        let bx = self.boxes();
        let iv = conj.eval_ival(&bx);
        if iv.0 > 0.0 || iv.1 < 0.0 {
            return true;
        }
        // both factors are analytic on the (connected) box when every root is positive there:
        // one of them vanishes identically, and it is not the conjugate
        let need = self.dep_closure(conj.used() | r.used());
        let smooth = (0..self.vars.len()).all(|i| need >> i & 1 == 0 || !matches!(self.vars[i].kind, Kind::Sqrt(_)) || bx[i].0 > 0.0);
        let at = conj.eval_ival(&self.hints());
        if smooth && (at.0 > 0.0 || at.1 < 0.0) {
            return true;
        }
        matches!(self.icp_query(&Bf::Atom(conj, ZERO), 2000), Ok((Res::Unsat, _)))
    }
    fn hint_mask(&self, r: &Poly) -> u8 {
        let iv = r.eval_ival(&self.hints());
        if iv.0 > 0.0 {
            POS
        } else if iv.1 < 0.0 {
            NEG
        } else if iv == (0.0, 0.0) {
            ZERO
        } else {
            // exact evaluation when only inputs occur
            let used = r.used();
            for i in 0..self.vars.len() {
                if used >> i & 1 == 1
                    && !(matches!(self.vars[i].kind, Kind::Input { .. })
                        && matches!(self.model[i], MVal::Exact(_)))
                {
                    return ANY;
                }
            }
            let mut acc = Q::int(0);
            for (m, c) in &r.0 {
                let mut t = Q::new(c.clone(), Z::one());
                for i in 0..self.vars.len() {
                    for _ in 0..m.0[i] {
                        if let MVal::Exact(q) = &self.model[i] {
                            t = t.mul(q);
                        }
                    }
                }
                acc = acc.add(&t);
            }
            match acc.sign() {
                0 => ZERO,
                1 => POS,
                _ => NEG,
            }
        }
    }
    /// Decide whether sign(p) is in `rel`, splitting the path when both are possible.
    pub fn decide(&mut self, p: &Poly, rel: u8) -> bool {
        self.stats.branches += 1;
        let (flip, r) = match self.sign_norm(p) {
            Err(s) => {
                return match s {
                    0 => rel & ZERO != 0,
                    1 => rel & POS != 0,
                    _ => rel & NEG != 0,
                }
            }
            Ok(x) => x,
        };
        let rel = if flip { flip_mask(rel) } else { rel };
        if !self.memo.contains_key(&r) {
            if let Some(g) = self.univ_factor(&r) {
                if let Some(q) = r.div_exact(&g) {
                    return match self.sign3(&g) {
                        0 => rel & ZERO != 0,
                        s => {
                            let gp = if s > 0 { g } else { g.neg() };
                            self.factor_id(gp);
                            self.decide(&q, if s > 0 { rel } else { flip_mask(rel) })
                        }
                    };
                }
            }
        }
        let m = self.mask_of(&r);
        if m & !rel == 0 {
            self.stats.interval += 1;
            return true;
        }
        if m & rel == 0 {
            self.stats.interval += 1;
            return false;
        }
        if r.used() & self.angle_mask != 0 {
            if let Some(lin) = self.angle_linear(&r) {
                let t = self.resolve_angle_sign(&lin);
                let ans = self.decide(&t, rel);
                let nm = if ans { m & rel } else { m & !rel };
                self.memo.insert(r, nm);
                return ans;
            }
        }
        let ans;
        if self.pos < self.trace.len() {
            let t = self.trace[self.pos];
            self.pos += 1;
            ans = t & 1 == 1;
            if t & 2 != 0 {
                let mm = if ans { m & rel } else { m & !rel };
                self.assert_atom(&r, mm);
            }
        } else {
            if self.trace.len() > self.max_decisions {
                abort("decision limit");
            }
            let mut h = self.hint_mask(&r);
            let mut ident = false;
            if h & m == 0 {
                // inconsistent hint (approximate model): ignore it
                h = ANY;
            }
            let yes = m & rel;
            let no = m & !rel;
            if h & ZERO != 0 && h != ZERO && self.identity_zero(&r) {
                h = ZERO;
                ident = true;
            }
            if ident {
                ans = rel & ZERO != 0;
                self.stats.implied += 1;
                self.trace.push(ans as u8);
            } else if h & !rel == 0 || h & rel == 0 {
                let hv = h & rel != 0;
                let other = if hv { no } else { yes };
                let (res, om) = self.query(&Bf::Atom(r.clone(), other));
                match res {
                    Res::Unsat => {
                        self.stats.implied += 1;
                        self.trace.push(hv as u8);
                    }
                    Res::Sat | Res::Unknown => {
                        if res == Res::Unknown {
                            self.stats.unknown += 1;
                            self.incomplete
                                .push(format!("solver gave no answer on a branch flip"));
                        } else {
                            let model = om.unwrap();
                            let mut t = self.trace.clone();
                            t.push((!hv) as u8 | 2);
                            self.pushed.push(Item { trace: t, model, fix: self.fix.clone() });
                            self.stats.splits += 1;
                        }
                        self.trace.push(hv as u8 | 2);
                        let mm = if hv { yes } else { no };
                        self.assert_atom(&r, mm);
                    }
                }
                ans = hv;
            } else {
                let (r1, m1) = self.query(&Bf::Atom(r.clone(), yes));
                let (r2, m2) = self.query(&Bf::Atom(r.clone(), no));
                if r1 == Res::Unknown || r2 == Res::Unknown {
                    self.stats.unknown += 1;
                    self.incomplete
                        .push("solver gave no answer on a branch".into());
                }
                if r1 == Res::Unsat && r2 == Res::Unsat {
                    self.stats.spurious += 1;
                    abort("infeasible path (over-approximated decision)");
                }
                let (a, split) = match (r1, r2) {
                    (Res::Sat, Res::Unsat) => (true, false),
                    (Res::Unsat, Res::Sat) => (false, false),
                    (Res::Sat, Res::Sat) => {
                        let mut t = self.trace.clone();
                        t.push(2);
                        self.pushed.push(Item {
                            trace: t,
                            model: m2.clone().unwrap(),
                            fix: self.fix.clone(),
                        });
                        self.stats.splits += 1;
                        (true, true)
                    }
                    (Res::Sat, _) => (true, true),
                    (_, Res::Sat) => (false, true),
                    (Res::Unknown, Res::Unsat) => (true, false),
                    (Res::Unsat, Res::Unknown) => (false, false),
                    _ => abort("solver gave no answer"),
                };
                if split {
                    let mm = if a { yes } else { no };
                    self.assert_atom(&r, mm);
                } else {
                    self.stats.implied += 1;
                }
                if let Some(m) = if a { m1 } else { m2 } {
                    self.model = m;
                    self.rehint();
                }
                self.trace.push(a as u8 | if split { 2 } else { 0 });
                ans = a;
            }
            self.pos = self.trace.len();
        }
        let nm = if ans { m & rel } else { m & !rel };
        self.memo.insert(r, nm);
        ans
    }

    // ---------- solver traffic ----------
    fn declare(&mut self, used: u64) {
        // dependencies have smaller indices
        let mut need = used;
        for i in (0..self.vars.len()).rev() {
            if need >> i & 1 == 1 {
                match &self.vars[i].kind {
                    Kind::Sqrt(p) => need |= p.used(),
                    _ => {}
                }
            }
        }
        for i in 0..self.vars.len() {
            if need >> i & 1 == 0 || self.vars[i].declared {
                continue;
            }
            let n = vname(i);
            let mut s = format!("(declare-const {n} Real)");
            match &self.vars[i].kind {
                Kind::Input { lo, hi, .. } => {
                    s.push_str(&format!(
                        "(assert (and (<= {} {n}) (<= {n} {})))",
                        smt_q(lo),
                        smt_q(hi)
                    ));
                }
                Kind::Sqrt(p) => {
                    s.push_str(&format!(
                        "(assert (>= {n} 0.0))(assert (= (* {n} {n}) {}))",
                        p.to_smt()
                    ));
                }
                Kind::Pi | Kind::Enc | Kind::Alpha(..) => {
                    let iv = self.vars[i].iv;
                    s.push_str(&format!(
                        "(assert (and (<= {} {n}) (<= {n} {})))",
                        smt_q(&Q::from_f64_exact(iv.0)),
                        smt_q(&Q::from_f64_exact(iv.1))
                    ));
                }
            }
            self.solver.send(&s);
            self.vars[i].declared = true;
        }
    }
    fn atom_smt(p: &Poly, m: u8) -> String {
        let t = p.to_smt();
        match m {
            NEG => format!("(< {t} 0.0)"),
            ZERO => format!("(= {t} 0.0)"),
            POS => format!("(> {t} 0.0)"),
            3 => format!("(<= {t} 0.0)"),
            6 => format!("(>= {t} 0.0)"),
            5 => format!("(not (= {t} 0.0))"),
            7 => "true".into(),
            _ => "false".into(),
        }
    }
    fn assert_atom(&mut self, p: &Poly, m: u8) {
        self.declare(p.used());
        self.solver.send(&format!("(assert {})", Self::atom_smt(p, m)));
        if m == ZERO && p.total_degree() == 1 && p.used().count_ones() == 1 {
            let v = p.used().trailing_zeros() as usize;
            if matches!(self.vars[v].kind, Kind::Input { .. }) {
                let (a, b) = p.split_linear(v);
                if let (Some(a), Some(b)) = (a.as_const(), b.as_const()) {
                    self.pins.push((v, Q::new(a.neg(), b)));
                }
            }
        }
        self.add_pc(&Bf::Atom(p.clone(), m));
    }
    fn add_pc(&mut self, b: &Bf) {
        let mut cache = HashMap::new();
        let c = self.compile(b, &mut cache);
        self.pc_hard |= self.is_hard(Self::bf_used(b));
        self.cpc.push(c);
        self.pcb.push(b.clone());
        if *SLOW {
            self.pcs.push(Self::bf_smt(b));
        }
        self.contract();
    }
    /// inputs the path condition forces to one value, beyond those already constant
    pub fn pinned(&mut self) -> BTreeMap<usize, Q> {
        let mut r = self.fix.clone();
        for (v, q) in self.pins.clone() {
            r.insert(v, q);
        }
        for v in 0..self.vars.len() {
            let Kind::Input { lo, hi, .. } = &self.vars[v].kind else { continue };
            let (w, f) = (self.vars[v].iv.1 - self.vars[v].iv.0, hi.to_f64() - lo.to_f64());
            if r.contains_key(&v) || w > 0.2 * f {
                continue;
            }
            let Some(MVal::Exact(q)) = self.model.get(v).cloned() else { continue };
            let p = Poly::var(v).scale(&q.d).sub(&Poly::konst(q.n.clone()));
            if let (Res::Unsat, _) = self.query(&Bf::Atom(p, NEG | POS)) {
                r.insert(v, q);
            }
        }
        r
    }
    fn is_hard(&self, used: u64) -> bool {
        (0..self.vars.len()).any(|i| {
            used >> i & 1 == 1
                && matches!(self.vars[i].kind, Kind::Sqrt(_))
                && !self.vars[i].konst
        })
    }
    fn bf_used(b: &Bf) -> u64 {
        match b {
            Bf::Atom(p, _) => p.used(),
            Bf::And(v) | Bf::Or(v) | Bf::Xor(v) => v.iter().map(Self::bf_used).fold(0, |a, b| a | b),
            _ => 0,
        }
    }
    fn bf_smt(b: &Bf) -> String {
        match b {
            Bf::True => "true".into(),
            Bf::False => "false".into(),
            Bf::Atom(p, m) => Self::atom_smt(p, *m),
            Bf::And(v) => format!(
                "(and {})",
                v.iter().map(Self::bf_smt).collect::<Vec<_>>().join(" ")
            ),
            Bf::Or(v) => format!(
                "(or {})",
                v.iter().map(Self::bf_smt).collect::<Vec<_>>().join(" ")
            ),
            Bf::Xor(v) => match v.len() {
                0 => "false".into(),
                1 => Self::bf_smt(&v[0]),
                _ => format!(
                    "(xor {})",
                    v.iter().map(Self::bf_smt).collect::<Vec<_>>().join(" ")
                ),
            },
        }
    }
    /// Is the path condition together with b satisfiable?
    fn query(&mut self, b: &Bf) -> (Res, Option<Vec<MVal>>) {
        self.tick();
        let t = std::time::Instant::now();
        let r = self.query_inner(b);
        if *SLOW {
            let dt = t.elapsed().as_secs_f64();
            if dt > 0.5 {
                let bx: Vec<_> = self.vars.iter().filter(|v| matches!(v.kind, Kind::Input{..})).map(|v| v.iv).collect();
                let txt = Self::bf_smt(b);
                eprintln!("slow {dt:.2}s {:?} vars {} pc {} boxes {:?} q {}", r.0, self.vars.len(), self.cpc.len(), bx, &txt[..txt.len().min(3000)]);
                if dt > 5.0 {
                    for p in &self.pcs {
                        eprintln!("    pc {}", &p[..p.len().min(600)]);
                    }
                }
            }
        }
        r
    }
    fn query_inner(&mut self, b: &Bf) -> (Res, Option<Vec<MVal>>) {
        let hard = self.pc_hard || self.is_hard(Self::bf_used(b));
        if !hard && Self::bf_deg(b) > 2 {
            if let Ok(r) = self.icp_query(b, 600) {
                return r;
            }
        }
        if !hard {
            let r = self.z3_query(b, self.timeout_ms.min(2000));
            if r.0 != Res::Unknown {
                return r;
            }
            if let Ok(r) = self.icp_query(b, 20000) {
                return r;
            }
            return self.z3_query(b, self.timeout_ms);
        }
        let s1 = match self.icp_query(b, 1500) {
            Ok(r) => return r,
            Err(s) => s,
        };
        let r = self.z3_query(b, 500.min(self.timeout_ms));
        if r.0 != Res::Unknown {
            return r;
        }
        let s2 = match s1 {
            Some(w) => Some(w),
            None => match self.icp_query(b, 40000) {
                Ok(r) => return r,
                Err(s) => s,
            },
        };
        if let Some((n, w)) = s2 {
            // everything refuted except slivers below the resolution
            self.stats.slivers += n;
            self.stats.sliver_width = self.stats.sliver_width.max(w);
            return (Res::Unsat, None);
        }
        self.z3_query(b, self.timeout_ms)
    }
    fn bf_deg(b: &Bf) -> usize {
        match b {
            Bf::Atom(p, _) => p.0.iter().map(|(m, _)| m.0.iter().map(|x| *x as usize).sum()).max().unwrap_or(0),
            Bf::And(v) | Bf::Or(v) | Bf::Xor(v) => v.iter().map(Self::bf_deg).max().unwrap_or(0),
            _ => 0,
        }
    }
    /// Err(Some((n, w))): refuted except for n slivers, each narrower than w of its range
    fn icp_query(
        &mut self,
        b: &Bf,
        budget: usize,
    ) -> Result<(Res, Option<Vec<MVal>>), Option<(u64, f64)>> {
        let t = std::time::Instant::now();
        let r = self.icp(b, budget);
        self.stats.icp_time += t.elapsed().as_secs_f64();
        self.stats.icp_queries += 1;
        match r {
            IcpRes::Unsat => {
                self.stats.icp_unsat += 1;
                Ok((Res::Unsat, None))
            }
            IcpRes::Sat(p) => {
                self.stats.icp_sat += 1;
                Ok((
                    Res::Sat,
                    Some(p.into_iter().map(|x| MVal::Exact(Q::from_f64_exact(x))).collect()),
                ))
            }
            IcpRes::Root(p) => {
                self.stats.icp_sat += 1;
                Ok((Res::Sat, Some(p.into_iter().map(MVal::Approx).collect())))
            }
            IcpRes::Slivers(n, w) => Err(Some((n, w))),
            IcpRes::Unknown => Err(None),
        }
    }
    fn z3_query(&mut self, b: &Bf, timeout: u64) -> (Res, Option<Vec<MVal>>) {
        let used = Self::bf_used(b);
        // inputs always declared so models cover them
        let inputs = (0..self.vars.len())
            .filter(|i| matches!(self.vars[*i].kind, Kind::Input { .. }))
            .fold(0u64, |a, i| a | 1 << i);
        self.declare(used | inputs);
        self.solver.set_timeout(timeout);
        self.solver.push();
        self.solver.tmp(&format!("(assert {})", Self::bf_smt(b)));
        let mut r = self.solver.check();
        let mut model = None;
        if r == Res::Sat {
            let names: Vec<String> = (0..self.n_inputs()).map(vname).collect();
            model = self.solver.values(&names);
            if model.is_none() {
                r = Res::Unknown;
            }
        }
        self.solver.pop();
        (r, model)
    }

    // ---------- assertions ----------
    pub fn bf_quick(&mut self, b: &Bf) -> Option<bool> {
        match b {
            Bf::True => Some(true),
            Bf::False => Some(false),
            Bf::Atom(p, m) => {
                let q = self.quick_mask(p);
                if q & !m == 0 {
                    Some(true)
                } else if q & m == 0 {
                    Some(false)
                } else {
                    None
                }
            }
            Bf::And(v) => {
                let mut all = true;
                for x in v {
                    match self.bf_quick(x) {
                        Some(false) => return Some(false),
                        Some(true) => {}
                        None => all = false,
                    }
                }
                if all {
                    Some(true)
                } else {
                    None
                }
            }
            Bf::Or(v) => {
                let mut none = true;
                for x in v {
                    match self.bf_quick(x) {
                        Some(true) => return Some(true),
                        Some(false) => {}
                        None => none = false,
                    }
                }
                if none {
                    Some(false)
                } else {
                    None
                }
            }
            Bf::Xor(v) => {
                let mut r = false;
                for x in v {
                    r ^= self.bf_quick(x)?;
                }
                Some(r)
            }
        }
    }
    /// Replace every atom already settled on this path by its truth value.
    pub fn bf_simplify(&mut self, b: &Bf) -> Bf {
        match b {
            Bf::True => Bf::True,
            Bf::False => Bf::False,
            Bf::Atom(..) => match self.bf_quick(b) {
                Some(true) => Bf::True,
                Some(false) => Bf::False,
                None => b.clone(),
            },
            Bf::And(v) => {
                let mut o = vec![];
                for x in v {
                    match self.bf_simplify(x) {
                        Bf::True => {}
                        Bf::False => return Bf::False,
                        y => o.push(y),
                    }
                }
                match o.len() {
                    0 => Bf::True,
                    1 => o.pop().unwrap(),
                    _ => Bf::And(o),
                }
            }
            Bf::Or(v) => {
                let mut o = vec![];
                for x in v {
                    match self.bf_simplify(x) {
                        Bf::False => {}
                        Bf::True => return Bf::True,
                        y => o.push(y),
                    }
                }
                match o.len() {
                    0 => Bf::False,
                    1 => o.pop().unwrap(),
                    _ => Bf::Or(o),
                }
            }
            Bf::Xor(v) => {
                let mut o = vec![];
                let mut neg = false;
                for x in v {
                    match self.bf_simplify(x) {
                        Bf::False => {}
                        Bf::True => neg = !neg,
                        y => o.push(y),
                    }
                }
                if o.is_empty() {
                    return if neg { Bf::True } else { Bf::False };
                }
                if neg {
                    o[0] = Self::bf_not(&o[0]);
                }
                if o.len() == 1 {
                    o.pop().unwrap()
                } else {
                    Bf::Xor(o)
                }
            }
        }
    }
    pub fn bf_not(b: &Bf) -> Bf {
        match b {
            Bf::True => Bf::False,
            Bf::False => Bf::True,
            Bf::Atom(p, m) => Bf::Atom(p.clone(), ANY & !m),
            Bf::And(v) => Bf::Or(v.iter().map(Self::bf_not).collect()),
            Bf::Or(v) => Bf::And(v.iter().map(Self::bf_not).collect()),
            Bf::Xor(v) => {
                let mut v = v.clone();
                v.push(Bf::True);
                Bf::Xor(v)
            }
        }
    }
    /// Conjoin a precondition to the path condition. False when it contradicts it.
    pub fn require(&mut self, b: &Bf) -> bool {
        let b = self.bf_simplify(b);
        match b {
            Bf::True => return true,
            Bf::False => return false,
            _ => {}
        }
        self.declare(Self::bf_used(&b));
        self.solver.send(&format!("(assert {})", Self::bf_smt(&b)));
        self.add_pc(&b);
        if self.pos < self.trace_in || self.bf_hint(&b) == Some(true) {
            // replayed prefix: the item's model already satisfies it
            return true;
        }
        match self.query(&Bf::True) {
            (Res::Unsat, _) => false,
            (Res::Sat, Some(m)) => {
                self.model = m;
                self.rehint();
                true
            }
            _ => {
                self.stats.unknown += 1;
                self.incomplete
                    .push("solver gave no answer on a precondition".into());
                true
            }
        }
    }
    /// truth value at the current model, when the enclosures settle it
    fn bf_hint(&self, b: &Bf) -> Option<bool> {
        match b {
            Bf::True => Some(true),
            Bf::False => Some(false),
            Bf::Atom(p, m) => {
                let h = self.hint_mask(p);
                if h & !m == 0 {
                    Some(true)
                } else if h & m == 0 {
                    Some(false)
                } else {
                    None
                }
            }
            Bf::And(v) => {
                let mut all = Some(true);
                for x in v {
                    match self.bf_hint(x) {
                        Some(false) => return Some(false),
                        Some(true) => {}
                        None => all = None,
                    }
                }
                all
            }
            Bf::Or(v) => {
                let mut all = Some(false);
                for x in v {
                    match self.bf_hint(x) {
                        Some(true) => return Some(true),
                        Some(false) => {}
                        None => all = None,
                    }
                }
                all
            }
            Bf::Xor(v) => {
                let mut r = false;
                for x in v {
                    r ^= self.bf_hint(x)?;
                }
                Some(r)
            }
        }
    }
    /// The property assertion: must hold on every valuation of the current path.
    pub fn check(&mut self, what: &str, b: &Bf) {
        self.stats.checks += 1;
        if self.pos < self.trace_in {
            // the parent path asserted this under a weaker path condition
            return;
        }
        if self.failed.contains(what) {
            return;
        }
        let nb = Self::bf_not(b);
        let nb = self.bf_simplify(&nb);
        if matches!(nb, Bf::False) {
            self.stats.checks_interval += 1;
            return;
        }
        self.stats.check_queries += 1;
        match self.query(&nb) {
            (Res::Unsat, _) => {}
            (Res::Sat, m) => {
                self.failed.insert(what.to_string());
                self.cexs.push(Cex {
                    what: what.to_string(),
                    model: m.unwrap(),
                    panic: false,
                });
            }
            (Res::Unknown, _) => {
                self.stats.unknown += 1;
                self.incomplete
                    .push(format!("solver gave no answer on assertion: {what}"));
            }
        }
    }
    /// A model of the current path condition (for panics).
    pub fn path_model(&mut self) -> Vec<MVal> {
        match self.query(&Bf::True) {
            (Res::Sat, Some(m)) => m,
            _ => self.model.clone(),
        }
    }

    // ---------- angles ----------
    fn angle_linear(&self, r: &Poly) -> Option<Lin> {
        let mut l = Lin {
            a: vec![],
            pi: Z::zero(),
            c: Z::zero(),
        };
        for (m, c) in &r.0 {
            if m.is_one() {
                l.c = c.clone();
                continue;
            }
            if m.degree() != 1 {
                return None;
            }
            let v = m.0.iter().position(|e| *e == 1).unwrap();
            match self.vars[v].kind {
                Kind::Pi => l.pi = c.clone(),
                Kind::Alpha(..) => l.a.push((v, c.clone())),
                _ => return None,
            }
        }
        if l.a.is_empty() {
            return None;
        }
        Some(l)
    }
    fn pair_norm(&mut self, x: Poly, y: Poly) -> (Poly, Poly) {
        let (mut x, mut y) = (x, y);
        let g = x.content().gcd(&y.content());
        if !g.is_one() && !g.is_zero() {
            x = x.div_const(&g);
            y = y.div_const(&g);
        }
        if y.is_zero() {
            return (Poly::one(), y);
        }
        if x.is_zero() {
            return (x, Poly::one());
        }
        // common monomials with known strict sign
        let (mx, my) = (x.mono_content(), y.mono_content());
        let mut strip = Mono::ONE;
        let mut neg = false;
        for i in 0..self.vars.len() {
            let e = mx.0[i].min(my.0[i]);
            if e > 0 {
                let m = self.quick_mask(&Poly::var(i));
                if m == POS || m == NEG {
                    strip.0[i] = e;
                    if m == NEG && e % 2 == 1 {
                        neg = !neg;
                    }
                }
            }
        }
        if !strip.is_one() {
            x = x.div_mono(&strip);
            y = y.div_mono(&strip);
            if neg {
                x = x.neg();
                y = y.neg();
            }
        }
        for k in 0..self.factors.len() {
            let f = self.factors[k].clone();
            if f.is_const() {
                continue;
            }
            loop {
                let (Some(a), Some(b)) = (x.div_exact(&f), y.div_exact(&f)) else {
                    break;
                };
                x = a;
                y = b;
            }
        }
        // one divides the other?
        if !y.is_const() {
            if let Some(q) = x.div_exact(&y) {
                if self.quick_mask(&y) == POS {
                    x = q;
                    y = Poly::one();
                }
            }
        }
        if !x.is_const() {
            if let Some(q) = y.div_exact(&x) {
                if self.quick_mask(&x) == POS {
                    y = q;
                    x = Poly::one();
                }
            }
        }
        (x, y)
    }
    /// sum of n_i alpha_i as (direction in [0,pi/2), quarter turns)
    fn combine(&mut self, terms: &[(usize, i64)]) -> (Poly, Poly, i64) {
        let mut x = Poly::one();
        let mut y = Poly::zero();
        let mut k = 0i64;
        for (v, n) in terms {
            let Kind::Alpha(ux, uy) = self.vars[*v].kind.clone() else {
                unreachable!()
            };
            let lim = if ux.is_const() && uy.is_const() { 128 } else { 16 };
            if n.abs() > lim {
                abort("angle multiple too large");
            }
            for _ in 0..n.abs() {
                self.tick();
                let (xx, yy, kk) = self.turn(x, y, &ux, &uy, *n > 0);
                x = xx;
                y = yy;
                k += kk;
            }
        }
        (x, y, k)
    }
    /// rotate (x, y) in [0, pi/2) by a first-quadrant direction, back into [0, pi/2)
    fn turn(&mut self, x: Poly, y: Poly, ux: &Poly, uy: &Poly, fwd: bool) -> (Poly, Poly, i64) {
        let (a, b, k);
        if fwd {
            let xx = self.pmul(&x, ux).sub(&self.pmul(&y, uy));
            let yy = self.pmul(&x, uy).add(&self.pmul(&y, ux));
            if self.decide(&xx, POS) {
                (a, b, k) = (xx, yy, 0);
            } else {
                (a, b, k) = (yy, xx.neg(), 1);
            }
        } else {
            let xx = self.pmul(&x, ux).add(&self.pmul(&y, uy));
            let yy = self.pmul(&y, ux).sub(&self.pmul(&x, uy));
            if self.decide(&yy, POS | ZERO) {
                (a, b, k) = (xx, yy, 0);
            } else {
                (a, b, k) = (yy.neg(), xx, -1);
            }
        }
        let (a, b) = self.pair_norm(a, b);
        (a, b, k)
    }
    /// angle of a constant direction, in terms of the angles of Gaussian primes
    fn alpha_const(&mut self, x: &Z, y: &Z) -> Option<Frac> {
        let (mut a, mut b) = (x.to_i64()? as i128, y.to_i64()? as i128);
        let lim = 1i128 << 62;
        if a.abs() >= lim || b.abs() >= lim {
            return None;
        }
        let target = (b as f64).atan2(a as f64);
        let mut n = a * a + b * b;
        let mut sum = self.fint(&Q::int(0));
        let mut num = 0.0f64;
        while n % 2 == 0 {
            // divide by 1 + i
            (a, b) = ((a + b) / 2, (b - a) / 2);
            n /= 2;
            let q = self.pi_frac(1, 4);
            sum = self.fadd(&sum, &q, false);
            num += std::f64::consts::FRAC_PI_4;
        }
        let mut p = 5i128;
        while p <= 50_000 && p * p <= n {
            while n % p == 0 {
                (a, b, n) = self.gauss_step(a, b, n, p, &mut sum, &mut num);
            }
            p += 4;
        }
        if n > 1 && n <= 2_500_000_000 {
            // prime
            (a, b, n) = self.gauss_step(a, b, n, n, &mut sum, &mut num);
        }
        if n > 1 {
            // unfactored rest: first octant
            let (mut u, mut w) = (a.abs(), b.abs());
            if w > u {
                (u, w) = (w, u);
            }
            let f = self.alpha_atom(Poly::konst(Z::S(u as i64)), Poly::konst(Z::S(w as i64)));
            let fa = (w as f64).atan2(u as f64);
            // arg(a + ib) = +-f + k pi/2
            let swap = b.abs() > a.abs();
            let minus = (a * b < 0) != swap;
            sum = self.fadd(&sum, &f, minus);
            num += if minus { -fa } else { fa };
        }
        let k = (target - num) / std::f64::consts::FRAC_PI_2;
        let kr = k.round();
        if (k - kr).abs() > 1e-6 {
            return None;
        }
        let q = self.pi_frac(kr as i64, 2);
        Some(self.fadd(&sum, &q, false))
    }
    fn gauss_step(&mut self, a: i128, b: i128, n: i128, p: i128, sum: &mut Frac, num: &mut f64) -> (i128, i128, i128) {
        // p = u^2 + w^2, u > w (p is 1 mod 4 and prime here)
        let mut u = (p as f64).sqrt() as i128 + 1;
        let w = loop {
            let r = p - u * u;
            if r > 0 {
                let w = (r as f64).sqrt().round() as i128;
                if w * w == r {
                    break w;
                }
            }
            u -= 1;
            if u <= 0 {
                abort("not a sum of squares");
            }
        };
        let (u, w) = if u > w { (u, w) } else { (w, u) };
        let f = self.alpha_atom(Poly::konst(Z::S(u as i64)), Poly::konst(Z::S(w as i64)));
        let fa = (w as f64).atan2(u as f64);
        // z * conj(u + iw) / p
        let (x, y) = (a * u + b * w, b * u - a * w);
        if x % p == 0 && y % p == 0 {
            *sum = self.fadd(sum, &f, false);
            *num += fa;
            return (x / p, y / p, n / p);
        }
        let (x, y) = (a * u - b * w, b * u + a * w);
        *sum = self.fadd(sum, &f, true);
        *num -= fa;
        (x / p, y / p, n / p)
    }
    /// (c1, c2, R) with p = c1 R, q = c2 R
    fn proportional(p: &Poly, q: &Poly) -> Option<(Z, Z, Poly)> {
        if p.is_zero() {
            let (c, r) = q.primitive();
            return Some((Z::zero(), c, r));
        }
        let (c1, r1) = p.primitive();
        if q.is_zero() {
            return Some((c1, Z::zero(), r1));
        }
        if p.0.len() != q.0.len() {
            return None;
        }
        let (c2, r2) = q.primitive();
        if r1 == r2 {
            Some((c1, c2, r1))
        } else if r1 == r2.neg() {
            Some((c1, c2.neg(), r1))
        } else {
            None
        }
    }
    /// express the angle of (x, y) through an existing angle variable, when a power of one
    /// direction is a constant rotation of a power of the other
    fn alpha_related(&mut self, x: &Poly, y: &Poly) -> Option<Frac> {
        let used = x.used() | y.used();
        if x.0.len() + y.0.len() > 80 {
            return None;
        }
        for v in 0..self.vars.len() {
            let Kind::Alpha(ux, uy) = self.vars[v].kind.clone() else { continue };
            if self.vars[v].konst {
                continue;
            }
            let uu = ux.used() | uy.used();
            let shared = (0..self.vars.len()).any(|i| used & uu >> i & 1 == 1 && !self.vars[i].konst);
            if !shared || ux.0.len() + uy.0.len() > 80 {
                continue;
            }
            for m in 1..=2 {
                // z^m
                let (mut zx, mut zy) = (x.clone(), y.clone());
                if m == 2 {
                    let a = self.pmul(x, x).sub(&self.pmul(y, y));
                    zy = self.pmul(x, y).scale(&Z::S(2));
                    zx = a;
                }
                let (mut px, mut py) = (zx.clone(), zy.clone());
                let (mut mx, mut my) = (zx, zy);
                for n in 1..=(if m == 1 { 4 } else { 1 }) {
                    // p = z^m conj(u)^n, m = z^m u^n
                    let a = self.pmul(&px, &ux).add(&self.pmul(&py, &uy));
                    py = self.pmul(&py, &ux).sub(&self.pmul(&px, &uy));
                    px = a;
                    let a = self.pmul(&mx, &ux).sub(&self.pmul(&my, &uy));
                    my = self.pmul(&mx, &uy).add(&self.pmul(&my, &ux));
                    mx = a;
                    if px.0.len() + py.0.len() + mx.0.len() + my.0.len() > 600 {
                        break;
                    }
                    let plus = Self::proportional(&px, &py).is_some();
                    let minus = !plus && Self::proportional(&mx, &my).is_some();
                    if !plus && !minus {
                        continue;
                    }
                    // m arg z = arg(zx', zy') + kz pi/2 ; +-n alpha_v = arg(X, Y) + ku pi/2
                    let (mut ax, mut ay, mut kz) = (x.clone(), y.clone(), 0);
                    if m == 2 {
                        (ax, ay, kz) = self.turn(ax, ay, x, y, true);
                    }
                    let sn = if plus { n } else { -n };
                    let (bx, by, ku) = self.combine(&[(v, sn)]);
                    let re = self.pmul(&ax, &bx).add(&self.pmul(&ay, &by));
                    let im = self.pmul(&ay, &bx).sub(&self.pmul(&ax, &by));
                    let (c1, c2, r) = Self::proportional(&re, &im)?;
                    // their difference lies in (-pi/2, pi/2], so the real part has a known sign
                    let s = if c1.is_zero() { self.sign3(&r) } else { c1.sign() };
                    let kf = |c: Z| Frac { n: Poly::konst(if s < 0 { c.neg() } else { c }), dc: Z::one(), den: vec![] };
                    let diff = self.fatan2(&kf(c2), &kf(c1));
                    let base = Frac { n: Poly::var(v).scale(&Z::S(sn)), dc: Z::one(), den: vec![] };
                    let e = self.fadd(&base, &diff, false);
                    let q = self.pi_frac(kz - ku, 2);
                    let e = self.fadd(&e, &q, false);
                    return Some(if m == 1 {
                        e
                    } else {
                        let h = self.fint(&Q::new(Z::S(1), Z::S(2)));
                        self.fmul(&e, &h)
                    });
                }
            }
        }
        None
    }
    fn resolve_angle_sign(&mut self, l: &Lin) -> Poly {
        let mut g = Z::zero();
        for (_, c) in &l.a {
            g = g.gcd(c);
        }
        let terms: Vec<(usize, i64)> = l
            .a
            .iter()
            .map(|(v, c)| {
                (
                    *v,
                    c.divexact(&g)
                        .to_i64()
                        .unwrap_or_else(|| abort("angle coefficient")),
                )
            })
            .collect();
        let (x, y, k) = self.combine(&terms);
        // total/g = phi + (k/2 + pi/g) * PI + c/g ; compare phi with m = kap*PI + cc
        let kap = Q::new(Z::S(-k), Z::S(2)).sub(&Q::new(l.pi.clone(), g.clone()));
        let cc = Q::new(l.c.neg(), g.clone());
        if cc.sign() == 0 {
            if kap.sign() < 0 {
                return Poly::one();
            }
            if kap.sub(&Q::new(Z::S(1), Z::S(2))).sign() >= 0 {
                return Poly::one().neg();
            }
            if kap.sign() == 0 {
                return y;
            }
            if kap == Q::new(Z::S(1), Z::S(4)) {
                return y.sub(&x);
            }
        }
        let m = kap.to_f64() * std::f64::consts::PI + cc.to_f64();
        if m < 0.0 {
            return Poly::one();
        }
        if m >= std::f64::consts::FRAC_PI_2 {
            return Poly::one().neg();
        }
        let t = (m / 2.0).tan();
        let q = Q::from_f64_decimal(format!("{:.15e}", t).parse::<f64>().unwrap());
        let (a, b) = (q.n, q.d);
        let cs = b.mul(&b).sub(&a.mul(&a));
        let sn = a.mul(&b).mul(&Z::S(2));
        y.scale(&cs).sub(&x.scale(&sn))
    }
    fn alpha(&mut self, x: Poly, y: Poly) -> Frac {
        let (x, y) = self.pair_norm(x, y);
        if x == y {
            let p = self.pi_var();
            return Frac {
                n: Poly::var(p),
                dc: Z::S(4),
                den: vec![],
            };
        }
        // complementary angle shares one variable: keep y <= x when that is known
        let d = x.sub(&y);
        let key = (x.clone(), y.clone());
        if let Some(v) = self.alpha_map.get(&key) {
            return Frac {
                n: Poly::var(*v),
                dc: Z::one(),
                den: vec![],
            };
        }
        if self.quick_mask(&d) == NEG {
            // pi/2 - alpha(y, x)
            let a = self.alpha(y, x);
            let p = self.pi_var();
            let hp = Frac {
                n: Poly::var(p),
                dc: Z::S(2),
                den: vec![],
            };
            return self.fadd(&hp, &a, true);
        }
        if let (Some(a), Some(b)) = (x.as_const(), y.as_const()) {
            if let Some(f) = self.alpha_const(&a, &b) {
                return f;
            }
        } else if let Some(f) = self.alpha_related(&x, &y) {
            return f;
        }
        self.alpha_atom(x, y)
    }
    fn alpha_atom(&mut self, x: Poly, y: Poly) -> Frac {
        let key = (x.clone(), y.clone());
        if let Some(v) = self.alpha_map.get(&key) {
            return Frac {
                n: Poly::var(*v),
                dc: Z::one(),
                den: vec![],
            };
        }
        let b = self.boxes();
        let h = self.hints();
        let iv = Self::alpha_iv(x.eval_ival(&b), y.eval_ival(&b));
        let hint = Self::alpha_iv(x.eval_ival(&h), y.eval_ival(&h));
        let konst = self.is_const_mask(x.used() | y.used());
        let v = self.add_var(Kind::Alpha(x.clone(), y.clone()), iv, hint, konst);
        self.alpha_map.insert(key, v);
        Frac {
            n: Poly::var(v),
            dc: Z::one(),
            den: vec![],
        }
    }
    fn pi_frac(&mut self, num: i64, den: i64) -> Frac {
        let p = self.pi_var();
        let q = Q::new(Z::S(num), Z::S(den));
        Frac {
            n: Poly::var(p).scale(&q.n),
            dc: q.d,
            den: vec![],
        }
    }
    pub fn fatan2(&mut self, y: &Frac, x: &Frac) -> Frac {
        let q = {
            // common positive denominator
            let mut lcm: BTreeMap<u32, u8> = x.den.iter().cloned().collect();
            for (f, e) in &y.den {
                let z = lcm.entry(*f).or_insert(0);
                *z = (*z).max(*e);
            }
            let up = |s: &Self, a: &Frac, other: &Z| {
                let need: Vec<(u32, u8)> = lcm
                    .iter()
                    .filter_map(|(f, e)| {
                        let h = a.den.iter().find(|(g, _)| g == f).map(|x| x.1).unwrap_or(0);
                        if *e > h {
                            Some((*f, *e - h))
                        } else {
                            None
                        }
                    })
                    .collect();
                s.pmul(&a.n.scale(other), &s.fac_prod(&need))
            };
            (up(self, x, &y.dc), up(self, y, &x.dc))
        };
        let (px, py) = q;
        let zero = self.fint(&Q::int(0));
        let sy = self.sign3(&py);
        let sx = self.sign3(&px);
        match (sx, sy) {
            (0, 0) | (1, 0) => zero,
            (-1, 0) => self.pi_frac(1, 1),
            (0, 1) => self.pi_frac(1, 2),
            (0, -1) => self.pi_frac(-1, 2),
            (1, 1) => self.alpha(px, py),
            (-1, 1) => {
                let a = self.alpha(py, px.neg());
                let h = self.pi_frac(1, 2);
                self.fadd(&h, &a, false)
            }
            (-1, -1) => {
                let a = self.alpha(px.neg(), py.neg());
                let h = self.pi_frac(-1, 1);
                self.fadd(&h, &a, false)
            }
            _ => {
                let a = self.alpha(py.neg(), px);
                let h = self.pi_frac(-1, 2);
                self.fadd(&h, &a, false)
            }
        }
    }
    /// direction (cos, sin up to a positive factor) of the angle e
    fn direction(&mut self, e: &Frac) -> (Frac, Frac) {
        let one = self.fint(&Q::int(1));
        let zero = self.fint(&Q::int(0));
        if e.n.is_zero() {
            return (one, zero);
        }
        if !e.den.is_empty() {
            abort("angle with symbolic denominator");
        }
        let lin = if let Some(l) = self.angle_linear(&e.n) {
            l
        } else if self.pi.is_some()
            && e.n.0.len() == 1
            && e.n.0[0].0 == Mono::var(self.pi.unwrap())
        {
            Lin {
                a: vec![],
                pi: e.n.0[0].1.clone(),
                c: Z::zero(),
            }
        } else {
            // split off a non-angle remainder that may vanish on this path
            let rest = Poly::from_terms(e.n.0.iter().filter(|(m, _)| !(m.degree() == 1 && m.0.iter().enumerate().all(|(i, d)| *d == 0 || self.angle_mask >> i & 1 == 1))).cloned().collect());
            if !rest.is_zero() && !rest.is_const() && rest.used() & self.angle_mask == 0 && self.decide(&rest, ZERO) {
                let f = Frac { n: e.n.sub(&rest), dc: e.dc.clone(), den: vec![] };
                return self.direction(&f);
            }
            abort("trigonometric function of a non-angle value")
        };
        if !lin.c.is_zero() {
            abort("trigonometric function of angle plus constant");
        }
        let mut b = 1i64;
        loop {
            let ok = lin
                .a
                .iter()
                .all(|(_, c)| c.mul(&Z::S(b)).divisible(&e.dc))
                && lin.pi.mul(&Z::S(4 * b)).divisible(&e.dc);
            if ok {
                break;
            }
            b *= 2;
            if b > 16 {
                abort("unsupported angle fraction");
            }
        }
        let terms: Vec<(usize, i64)> = lin
            .a
            .iter()
            .map(|(v, c)| {
                (
                    *v,
                    c.mul(&Z::S(b))
                        .divexact(&e.dc)
                        .to_i64()
                        .unwrap_or_else(|| abort("angle coefficient")),
                )
            })
            .collect();
        let q4 = lin
            .pi
            .mul(&Z::S(4 * b))
            .divexact(&e.dc)
            .to_i64()
            .unwrap_or_else(|| abort("angle coefficient")); // quarter-pi units
        let (mut x, mut y, mut k) = self.combine(&terms);
        let mut q4 = q4;
        if q4.rem_euclid(2) == 1 {
            // rotate by pi/4
            q4 -= 1;
            let (xx, yy) = (x.sub(&y), x.add(&y));
            if self.decide(&xx, POS) {
                x = xx;
                y = yy;
            } else {
                x = yy;
                y = xx.neg();
                k += 1;
            }
        }
        let kk = k + q4 / 2; // E' = phi + kk*pi/2
        let r = {
            let m = kk.rem_euclid(4);
            if m >= 2 {
                m - 4
            } else {
                m
            }
        };
        let j = (kk - r) / 4;
        // direction of E'' = phi + r*pi/2 in [-pi, pi)
        let (px, py) = match r {
            0 => (x.clone(), y.clone()),
            1 => (y.neg(), x.clone()),
            -1 => (y.clone(), x.neg()),
            _ => (x.neg(), y.neg()),
        };
        let fr = |p: Poly| Frac {
            n: p,
            dc: Z::one(),
            den: vec![],
        };
        let (mut dx, mut dy) = (fr(px), fr(py));
        if b == 1 {
            return (dx, dy);
        }
        let mut first = true;
        let mut bb = b;
        while bb > 1 {
            if first && r == -2 && self.decide(&y, ZERO) {
                dx = self.fint(&Q::int(0));
                dy = self.fint(&Q::int(-1));
            } else {
                let s2 = {
                    let a = self.fmul(&dx, &dx);
                    let c = self.fmul(&dy, &dy);
                    self.fadd(&a, &c, false)
                };
                let V::F(rho) = self.fsqrt(&s2) else {
                    abort("direction norm")
                };
                dx = self.fadd(&rho, &dx, false);
            }
            first = false;
            bb /= 2;
        }
        // E'/b = E''/b + 2 pi j / b
        // in units of pi/2: 4j/b
        let num = 4 * j;
        if num % b == 0 {
            for _ in 0..(num / b).rem_euclid(4) {
                let t = dx;
                dx = self.fneg(&dy);
                dy = t;
            }
        } else {
            abort("unsupported angle fraction");
        }
        (dx, dy)
    }
    /// sine and cosine of a constant angle that is not a handled fraction, by enclosure
    fn enclosed_sin_cos(&mut self, e: &Frac) -> Option<(Frac, Frac)> {
        if e.n.is_zero() || !e.den.is_empty() || e.n.used() & !self.angle_mask != 0 || !self.is_const_mask(e.n.used()) {
            return None;
        }
        let mut b = 1i64;
        loop {
            let ok = e.n.0.iter().all(|(m, c)| {
                let v = (0..self.vars.len()).find(|i| m.0[*i] > 0);
                let k = if v.is_some() && v == self.pi { 4 * b } else { b };
                m.degree() == 1 && c.mul(&Z::S(k)).divisible(&e.dc)
            });
            if ok && b <= 4 {
                return None;
            }
            b *= 2;
            if b > 4 {
                break;
            }
        }
        if e.n.0.iter().any(|(m, _)| m.degree() != 1) {
            return None;
        }
        let key = format!("{:?}", e);
        let (s, c) = match self.enc_map.get(&key) {
            Some(x) => *x,
            None => {
                let a = self.fhint(e);
                let w = 1e-12 * (1.0 + a.abs());
                let mut mk = |v: f64| self.add_var(Kind::Enc, (v - w, v + w), (v - w, v + w), true);
                let r = (mk(a.sin()), mk(a.cos()));
                self.enc_map.insert(key, r);
                r
            }
        };
        let f = |v| Frac { n: Poly::var(v), dc: Z::one(), den: vec![] };
        Some((f(s), f(c)))
    }
    pub fn fsin_cos(&mut self, e: &Frac) -> (V, V) {
        if let Some((s, c)) = self.enclosed_sin_cos(e) {
            return (V::F(Rc::new(s)), V::F(Rc::new(c)));
        }
        let (x, y) = self.direction(e);
        let s2 = {
            let a = self.fmul(&x, &x);
            let c = self.fmul(&y, &y);
            self.fadd(&a, &c, false)
        };
        let V::F(rho) = self.fsqrt(&s2) else {
            abort("direction norm")
        };
        (self.fdiv(&y, &rho), self.fdiv(&x, &rho))
    }
    pub fn ftan(&mut self, e: &Frac) -> V {
        let (x, y) = self.direction(e);
        self.fdiv(&y, &x)
    }
    pub fn ffloor(&mut self, a: &Frac) -> Frac {
        if let (Some(c), true) = (a.n.as_const(), a.den.is_empty()) {
            return self.fint(&Q::new(Q::new(c, a.dc.clone()).floor(), Z::one()));
        }
        let b = self.boxes();
        let mut iv = a.n.eval_ival(&b);
        let d = {
            let f = self.fac_prod(&a.den).scale(&a.dc);
            f.eval_ival(&b)
        };
        let mut known = d.0 > 0.0;
        if known {
            let c = [iv.0 / d.0, iv.0 / d.1, iv.1 / d.0, iv.1 / d.1];
            iv = (
                c.iter().cloned().fold(f64::INFINITY, f64::min),
                c.iter().cloned().fold(f64::NEG_INFINITY, f64::max),
            );
            known = iv.0.abs() < 1e6 && iv.1.abs() < 1e6 && iv.1 - iv.0 < 200.0;
        }
        let (mut k, top);
        if known {
            k = (iv.0 - 1e-9).floor() as i64;
            top = (iv.1 + 1e-9).floor() as i64;
        } else {
            // no useful enclosure: count up from zero
            if !self.decide(&a.n, POS | ZERO) {
                for k in 1..100 {
                    let q = self.fint(&Q::int(-k));
                    let df = self.fadd(a, &q, true);
                    if self.decide(&df.n, POS | ZERO) {
                        return q;
                    }
                }
                abort("floor of unbounded value");
            }
            k = 0;
            top = 200;
        }
        loop {
            if k >= top {
                if !known {
                    abort("floor of unbounded value");
                }
                return self.fint(&Q::int(k));
            }
            // a < k+1 ?
            let one = self.fint(&Q::int(k + 1));
            let df = self.fadd(a, &one, true);
            if self.decide(&df.n, NEG) {
                return self.fint(&Q::int(k));
            }
            k += 1;
        }
    }
    /// numeric value at the current model (for display only)
    pub fn watched(&self) -> Vec<f64> {
        self.watch
            .iter()
            .map(|w| match self.get(*w) {
                V::F(a) => self.fhint(&a),
                V::NaN => f64::NAN,
                V::Inf(true) => f64::INFINITY,
                V::Inf(false) => f64::NEG_INFINITY,
            })
            .collect()
    }
    pub fn fhint(&self, a: &Frac) -> f64 {
        let h: Vec<f64> = self.vars.iter().map(|v| (v.hint.0 + v.hint.1) / 2.0).collect();
        let mut d = a.dc.to_ival().0;
        for (f, e) in &a.den {
            d *= self.factors[*f as usize].eval_f64(&h).powi(*e as i32);
        }
        a.n.eval_f64(&h) / d
    }
}

struct Lin {
    a: Vec<(usize, Z)>,
    pi: Z,
    c: Z,
}

pub fn smt_q(q: &Q) -> String {
    let n = if q.n.sign() < 0 {
        format!("(- {}.0)", q.n.neg().to_dec())
    } else {
        format!("{}.0", q.n.to_dec())
    };
    if q.d.is_one() {
        n
    } else {
        format!("(/ {n} {}.0)", q.d.to_dec())
    }
}

impl Eng {
    /// rewrite a comparison polynomial over angles to an algebraic one with the same sign
    pub fn angle_free(&mut self, p: &Poly) -> Poly {
        if p.used() & self.angle_mask != 0 {
            let (c, r) = p.primitive();
            if let Some(l) = self.angle_linear(&r) {
                let t = self.resolve_angle_sign(&l);
                return if c.sign() < 0 { t.neg() } else { t };
            }
        }
        p.clone()
    }
}
