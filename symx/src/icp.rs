//! Interval branch-and-prune over the input variables: a rigorous decision procedure used in
//! front of the SMT solver. UNSAT answers come from a covering by refuted boxes, SAT answers
//! from a point (or box) on which outward-rounded evaluation proves every constraint.
use crate::engine::{Bf, Eng, Kind, NEG, POS, ZERO};
use crate::poly::*;
use crate::z::{next_down, next_up};
use std::collections::HashMap;
use std::rc::Rc;

type Terms = Vec<((f64, f64), Vec<(u8, u8)>)>;
#[derive(Clone, Debug)]
pub struct CPoly {
    t: Terms,
    pub used: u64,
    /// partial derivatives by variable (made on first use)
    d: std::cell::OnceCell<Vec<(usize, Terms)>>,
}
fn eval_terms(t: &Terms, b: &[(f64, f64)]) -> (f64, f64) {
    let mut acc = (0.0, 0.0);
    for (c, m) in t {
        let mut t = *c;
        for (i, e) in m {
            t = imul(t, ipow(b[*i as usize], *e));
        }
        acc = iadd(acc, t);
    }
    acc
}
/// A box of the input space with everything needed for centred evaluation.
pub struct Bx {
    /// value range of every variable
    pub v: Vec<(f64, f64)>,
    /// value range over the whole box, whatever the path condition says
    w: Vec<(f64, f64)>,
    /// value at the centre
    m: Vec<(f64, f64)>,
    /// range of the derivatives by the inputs
    g: Vec<[(f64, f64); 4]>,
    ok: Vec<bool>,
    /// inputs minus centre
    d: [(f64, f64); 4],
    k: usize,
    pub centred: bool,
}
fn meet(a: (f64, f64), b: (f64, f64)) -> (f64, f64) {
    (a.0.max(b.0), a.1.min(b.1))
}
impl Bx {
    fn new(n: usize) -> Bx {
        Bx { v: vec![(0., 0.); n], w: vec![(0., 0.); n], m: vec![(0., 0.); n], g: vec![[(0., 0.); 4]; n], ok: vec![false; n], d: [(0., 0.); 4], k: 0, centred: false }
    }
    /// derivatives of a polynomial by the inputs
    fn grad(&self, p: &CPoly) -> Option<[(f64, f64); 4]> {
        let mut r = [(0.0, 0.0); 4];
        for (i, t) in p.derivs() {
            if !self.ok[*i] {
                return None;
            }
            let q = eval_terms(t, &self.w);
            for j in 0..self.k {
                r[j] = iadd(r[j], imul(q, self.g[*i][j]));
            }
        }
        r.iter().take(self.k).all(|x| x.0.is_finite() && x.1.is_finite()).then_some(r)
    }
    /// mean value form
    fn mean(&self, p: &CPoly) -> Option<(f64, f64)> {
        let g = self.grad(p)?;
        let mut r = p.eval(&self.m);
        for j in 0..self.k {
            r = iadd(r, imul(g[j], self.d[j]));
        }
        (r.0.is_finite() && r.1.is_finite()).then_some(r)
    }
}
impl CPoly {
    fn derivs(&self) -> &Vec<(usize, Terms)> {
        self.d.get_or_init(|| {
            (0..64usize)
                .filter(|i| self.used >> i & 1 == 1)
                .map(|i| {
                    let mut t = vec![];
                    for (c, m) in &self.t {
                        let Some(k) = m.iter().position(|x| x.0 as usize == i) else { continue };
                        let e = m[k].1;
                        let mut m = m.clone();
                        if e == 1 {
                            m.remove(k);
                        } else {
                            m[k].1 -= 1;
                        }
                        t.push((imul(*c, (e as f64, e as f64)), m));
                    }
                    (i, t)
                })
                .collect()
        })
    }
    pub fn new(p: &Poly) -> CPoly {
        CPoly {
            d: Default::default(),
            t: p.0
                .iter()
                .map(|(m, c)| {
                    (
                        c.to_ival(),
                        (0..NV)
                            .filter(|i| m.0[*i] > 0)
                            .map(|i| (i as u8, m.0[i]))
                            .collect(),
                    )
                })
                .collect(),
            used: p.used(),
        }
    }
    #[inline]
    pub fn eval(&self, b: &[(f64, f64)]) -> (f64, f64) {
        eval_terms(&self.t, b)
    }
}
#[derive(Clone, Debug)]
pub enum CBf {
    True,
    False,
    Atom(Rc<CPoly>, u8),
    And(Vec<CBf>),
    Or(Vec<CBf>),
    Xor(Vec<CBf>),
}
#[derive(Clone, Debug)]
pub enum CDef {
    Input,
    Sqrt(CPoly),
    Fixed,
    Alpha(CPoly, CPoly),
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tri {
    T,
    F,
    U,
}
pub fn iv_mask(iv: (f64, f64)) -> u8 {
    if iv.0 > 0.0 {
        POS
    } else if iv.1 < 0.0 {
        NEG
    } else if iv.0 == 0.0 && iv.1 == 0.0 {
        ZERO
    } else {
        let mut m = ZERO;
        if iv.1 > 0.0 {
            m |= POS;
        }
        if iv.0 < 0.0 {
            m |= NEG;
        }
        if !(iv.0 <= iv.1) {
            m = 7;
        }
        m
    }
}
pub fn ceval(b: &CBf, v: &Bx) -> Tri {
    match b {
        CBf::True => Tri::T,
        CBf::False => Tri::F,
        CBf::Atom(p, m) => {
            let iv = p.eval(&v.v);
            let mut k = iv_mask(iv);
            if v.centred && k & !m != 0 && k & m != 0 {
                if let Some(r) = v.mean(p) {
                    k = iv_mask(meet(iv, r));
                }
            }
            if k & !m == 0 {
                Tri::T
            } else if k & m == 0 {
                Tri::F
            } else {
                Tri::U
            }
        }
        CBf::And(x) => {
            let mut r = Tri::T;
            for y in x {
                match ceval(y, v) {
                    Tri::F => return Tri::F,
                    Tri::U => r = Tri::U,
                    Tri::T => {}
                }
            }
            r
        }
        CBf::Or(x) => {
            let mut r = Tri::F;
            for y in x {
                match ceval(y, v) {
                    Tri::T => return Tri::T,
                    Tri::U => r = Tri::U,
                    Tri::F => {}
                }
            }
            r
        }
        CBf::Xor(x) => {
            let mut r = false;
            for y in x {
                match ceval(y, v) {
                    Tri::T => r = !r,
                    Tri::F => {}
                    Tri::U => return Tri::U,
                }
            }
            if r {
                Tri::T
            } else {
                Tri::F
            }
        }
    }
}
pub fn cused(b: &CBf) -> u64 {
    match b {
        CBf::Atom(p, _) => p.used,
        CBf::And(v) | CBf::Or(v) | CBf::Xor(v) => v.iter().map(cused).fold(0, |a, b| a | b),
        _ => 0,
    }
}

/// range of the polar angle over a rectangle within the right or the upper open half plane
fn atan_box(x: (f64, f64), y: (f64, f64)) -> (f64, f64) {
    let (mut lo, mut hi) = (f64::MAX, f64::MIN);
    for a in [x.0, x.1] {
        for b in [y.0, y.1] {
            let t = b.atan2(a);
            lo = lo.min(t);
            hi = hi.max(t);
        }
    }
    (lo - 2e-15, hi + 2e-15)
}
fn inv(a: (f64, f64)) -> (f64, f64) {
    (next_down(1.0 / a.1), next_up(1.0 / a.0))
}

pub enum IcpRes {
    Sat(Vec<f64>),
    /// a root of the (equality) query provably lies within 1e-7 of this point
    Root(Vec<f64>),
    Unsat,
    /// refuted except for this many slivers of at most this relative width
    Slivers(u64, f64),
    Unknown,
}

impl Eng {
    pub fn compile(&self, b: &Bf, cache: &mut HashMap<Poly, Rc<CPoly>>) -> CBf {
        match b {
            Bf::True => CBf::True,
            Bf::False => CBf::False,
            Bf::Atom(p, m) => {
                let c = match cache.get(p) {
                    Some(c) => c.clone(),
                    None => {
                        let c = Rc::new(CPoly::new(p));
                        cache.insert(p.clone(), c.clone());
                        c
                    }
                };
                CBf::Atom(c, *m)
            }
            Bf::And(v) => CBf::And(v.iter().map(|x| self.compile(x, cache)).collect()),
            Bf::Or(v) => CBf::Or(v.iter().map(|x| self.compile(x, cache)).collect()),
            Bf::Xor(v) => CBf::Xor(v.iter().map(|x| self.compile(x, cache)).collect()),
        }
    }
    /// closure of the variables a constraint set depends on
    pub fn dep_closure(&self, mut need: u64) -> u64 {
        for i in (0..self.vars.len()).rev() {
            if need >> i & 1 == 1 {
                match &self.cdefs[i] {
                    CDef::Sqrt(p) => need |= p.used,
                    CDef::Alpha(x, y) => need |= x.used | y.used,
                    _ => {}
                }
            }
        }
        need
    }
    /// fill in the derived variables of a box; false when the box admits none
    fn derive(&self, need: u64, b: &mut Bx) -> bool {
        b.centred = false;
        for i in 0..self.vars.len() {
            if need >> i & 1 == 0 {
                continue;
            }
            let s = match &self.cdefs[i] {
                CDef::Input => continue,
                CDef::Fixed => self.vars[i].iv,
                CDef::Sqrt(p) => {
                    let r = p.eval(&b.v);
                    if r.1 < 0.0 {
                        return false;
                    }
                    isqrt(r)
                }
                CDef::Alpha(x, y) => Eng::alpha_iv(x.eval(&b.v), y.eval(&b.v)),
            };
            b.v[i] = meet(s, self.vars[i].iv);
            if b.v[i].0 > b.v[i].1 {
                return false;
            }
        }
        true
    }
    /// centre values and derivative ranges; also tightens the derived variables.
    /// `ins` are the input variables, whose ranges are set. False when the box admits nothing.
    fn centre(&self, need: u64, ins: &[usize], b: &mut Bx) -> bool {
        b.k = ins.len();
        for (j, i) in ins.iter().enumerate() {
            let (l, h) = b.v[*i];
            let c = 0.5 * (l + h);
            b.w[*i] = (l, h);
            b.m[*i] = (c, c);
            b.d[j] = (next_down(l - c), next_up(h - c));
            b.g[*i] = [(0., 0.); 4];
            b.g[*i][j] = (1., 1.);
            b.ok[*i] = true;
        }
        for i in 0..self.vars.len() {
            if need >> i & 1 == 0 || matches!(self.cdefs[i], CDef::Input) {
                continue;
            }
            b.ok[i] = false;
            match &self.cdefs[i] {
                CDef::Input => {}
                CDef::Fixed => {
                    b.w[i] = self.vars[i].iv;
                    b.m[i] = self.vars[i].iv;
                    b.g[i] = [(0., 0.); 4];
                    b.ok[i] = true;
                }
                CDef::Sqrt(p) => {
                    let Some(g) = b.grad(p) else { continue };
                    let c = p.eval(&b.m);
                    let mut r = c;
                    for j in 0..b.k {
                        r = iadd(r, imul(g[j], b.d[j]));
                    }
                    r = meet(r, p.eval(&b.w));
                    if r.1 < 0.0 {
                        return false;
                    }
                    b.v[i] = meet(b.v[i], isqrt(r));
                    if b.v[i].0 > b.v[i].1 {
                        return false;
                    }
                    if c.0 <= 0.0 || !(r.0 > 1e-100) {
                        continue;
                    }
                    b.w[i] = isqrt(r);
                    b.m[i] = isqrt(c);
                    let h = inv((2.0 * b.w[i].0, 2.0 * b.w[i].1));
                    for j in 0..b.k {
                        b.g[i][j] = imul(g[j], h);
                    }
                    b.ok[i] = true;
                }
                CDef::Alpha(x, y) => {
                    let (Some(gx), Some(gy)) = (b.grad(x), b.grad(y)) else { continue };
                    let (cx, cy) = (x.eval(&b.m), y.eval(&b.m));
                    let (mut mx, mut my) = (cx, cy);
                    for j in 0..b.k {
                        mx = iadd(mx, imul(gx[j], b.d[j]));
                        my = iadd(my, imul(gy[j], b.d[j]));
                    }
                    let xv = meet(mx, x.eval(&b.w));
                    let yv = meet(my, y.eval(&b.w));
                    if !(xv.0 > 0.0 || yv.0 > 0.0) || !(xv.1.is_finite() && yv.1.is_finite()) {
                        continue;
                    }
                    let s = iadd(ipow(xv, 2), ipow(yv, 2));
                    if !(s.0 > 1e-100) {
                        continue;
                    }
                    b.m[i] = atan_box(cx, cy);
                    b.w[i] = atan_box(xv, yv);
                    let h = inv(s);
                    for j in 0..b.k {
                        let t = imul(yv, gx[j]);
                        b.g[i][j] = imul(iadd(imul(xv, gy[j]), (-t.1, -t.0)), h);
                    }
                    b.ok[i] = true;
                    b.v[i] = meet(b.v[i], b.w[i]);
                    if b.v[i].0 > b.v[i].1 {
                        return false;
                    }
                }
            }
        }
        b.centred = true;
        true
    }
    /// Shrink the input boxes after a constraint was added to the path condition.
    pub fn contract(&mut self) {
        let ins: Vec<usize> = (0..self.vars.len())
            .filter(|i| matches!(self.cdefs[*i], CDef::Input))
            .collect();
        if ins.len() > 4 || self.cpc.is_empty() {
            return;
        }
        let last = self.cpc.last().unwrap().clone();
        let used = self.dep_closure(cused(&last));
        let mut v: Vec<(f64, f64)> = self.vars.iter().map(|x| x.iv).collect();
        let mut u = Bx::new(v.len());
        let mut changed = false;
        for &i in &ins {
            if used >> i & 1 == 0 {
                continue;
            }
            for side in 0..2 {
                let mut steps = 0;
                let mut frac = 0.25;
                loop {
                    let (lo, hi) = v[i];
                    let w = hi - lo;
                    if w < 1e-9 || steps > 10 || frac < 0.01 {
                        break;
                    }
                    steps += 1;
                    let cut = if side == 0 { lo + w * frac } else { hi - w * frac };
                    u.v.clone_from(&v);
                    u.v[i] = if side == 0 { (lo, cut) } else { (cut, hi) };
                    let dead = !self.derive(used, &mut u) || ceval(&last, &u) == Tri::F;
                    if dead {
                        v[i] = if side == 0 { (cut, hi) } else { (lo, cut) };
                        changed = true;
                    } else {
                        frac *= 0.3;
                    }
                }
            }
        }
        if changed {
            for &i in &ins {
                self.vars[i].iv = v[i];
            }
            let mut b = Bx::new(self.vars.len());
            b.v = self.boxes();
            let all = (1u64 << (self.vars.len() - 1) << 1).wrapping_sub(1);
            if self.derive(all, &mut b) {
                for i in 0..self.vars.len() {
                    self.vars[i].iv = b.v[i];
                }
            }
        }
    }
    /// Decide (path condition ∧ q) by branch and prune with at most `budget` boxes.
    pub fn icp(&mut self, q: &Bf, budget: usize) -> IcpRes {
        let stop = (std::time::Instant::now() + std::time::Duration::from_millis(2 * self.timeout_ms)).min(self.deadline);
        let mut cache = HashMap::new();
        let mut cq = self.compile(q, &mut cache);
        // consequences of equalities among the constraints
        let mut eqs: Vec<(usize, &Poly)> = vec![];
        for (k, b) in self.pcb.iter().chain(std::iter::once(q)).enumerate() {
            if let Bf::Atom(p, m) = b {
                if *m == ZERO && !eqs.iter().any(|(_, x)| *x == p) {
                    eqs.push((k, p));
                }
            }
        }
        let qn = self.cpc.len();
        let mut simple: Vec<CBf> = vec![];
        if !eqs.is_empty() {
            for (k, b) in self.pcb.iter().chain(std::iter::once(q)).enumerate() {
                let e: Vec<&Poly> = eqs.iter().filter(|(i, _)| *i != k).map(|(_, p)| *p).collect();
                let c = match Self::under_eqs(b, &e) {
                    Some(x) => self.compile(&x, &mut cache),
                    None if k == qn => cq.clone(),
                    None => self.cpc[k].clone(),
                };
                if k == qn {
                    cq = c;
                } else {
                    simple.push(c);
                }
            }
        }
        let pcl: &Vec<CBf> = if eqs.is_empty() { &self.cpc } else { &simple };
        // the only equality left (for isolating its roots)
        let mut eq1: Vec<(usize, &CPoly)> = vec![];
        for (k, c) in pcl.iter().chain(std::iter::once(&cq)).enumerate() {
            if let CBf::Atom(p, m) = c {
                if *m == ZERO {
                    eq1.push((k, p));
                }
            }
        }
        let used = self.dep_closure(pcl.iter().map(cused).fold(cused(&cq), |a, b| a | b));
        let ins: Vec<usize> = (0..self.vars.len())
            .filter(|i| matches!(self.cdefs[*i], CDef::Input))
            .collect();
        if ins.is_empty() || ins.len() > 4 {
            return IcpRes::Unknown;
        }
        let n = self.vars.len();
        let root: Vec<(f64, f64)> = ins.iter().map(|i| self.vars[*i].iv).collect();
        let w0: Vec<f64> = ins
            .iter()
            .map(|i| match &self.vars[*i].kind {
                Kind::Input { lo, hi, .. } => (hi.to_f64() - lo.to_f64()).max(1e-300),
                _ => 1.0,
            })
            .collect();
        let mut stack = vec![root];
        let mut v = Bx::new(n);
        let mut count = 0usize;
        let mut unresolved = 0;
        // constraint that refuted last goes first
        let mut order: Vec<usize> = (0..self.cpc.len() + 1).rev().collect();
        let eval_all = |order: &mut Vec<usize>, v: &Bx| -> Tri {
            let mut r = Tri::T;
            for k in 0..order.len() {
                let j = order[k];
                let c = if j == qn { &cq } else { &pcl[j] };
                match ceval(c, v) {
                    Tri::F => {
                        order[..=k].rotate_right(1);
                        return Tri::F;
                    }
                    Tri::U => r = Tri::U,
                    Tri::T => {}
                }
            }
            r
        };
        while let Some(b) = stack.pop() {
            count += 1;
            if count % 16 == 0 && std::time::Instant::now() > stop {
                return IcpRes::Unknown;
            }
            if count > budget {
                return IcpRes::Unknown;
            }
            for (k, i) in ins.iter().enumerate() {
                v.v[*i] = b[k];
            }
            if !self.derive(used, &mut v) {
                continue;
            }
            if eval_all(&mut order, &v) == Tri::F {
                continue;
            }
            if !self.centre(used, &ins, &mut v) {
                continue;
            }
            if v.centred && eval_all(&mut order, &v) == Tri::F {
                continue;
            }
            let mid: Vec<f64> = b.iter().map(|(l, h)| nice_mid(*l, *h)).collect();
            for (k, i) in ins.iter().enumerate() {
                v.v[*i] = (mid[k], mid[k]);
            }
            if self.derive(used, &mut v) && self.derive_exact_ok(used, &v.v) {
                if eval_all(&mut order, &v) == Tri::T {
                    return IcpRes::Sat(mid);
                }
            }
            // split the dimension that is widest relative to its range
            let (mut k, mut best) = (0, -1.0);
            for j in 0..b.len() {
                if used >> ins[j] & 1 == 0 {
                    continue;
                }
                let r = (b[j].1 - b[j].0) / w0[j];
                if r > best {
                    best = r;
                    k = j;
                }
            }
            if best < 1e-7 {
                if eq1.len() == 1 && b.len() == 1 {
                    let (k, p) = eq1[0];
                    let others = pcl.iter().chain(std::iter::once(&cq)).enumerate().filter(|(i, _)| *i != k).map(|(_, c)| c);
                    if self.sign_change(used, &ins, &b, p, &mut v, others) {
                        return IcpRes::Root(mid);
                    }
                }
                unresolved += 1;
                if unresolved > 64 {
                    return IcpRes::Unknown;
                }
                continue;
            }
            let m = 0.5 * (b[k].0 + b[k].1);
            if !(m > b[k].0 && m < b[k].1) {
                unresolved += 1;
                continue;
            }
            let (mut l, mut r) = (b.clone(), b);
            l[k].1 = m;
            r[k].0 = m;
            stack.push(r);
            stack.push(l);
        }
        if unresolved > 0 {
            IcpRes::Slivers(unresolved, 1e-7)
        } else {
            IcpRes::Unsat
        }
    }
    /// One input: the polynomial certainly changes sign over the box and every other constraint
    /// certainly holds on all of it.
    fn sign_change(&self, used: u64, ins: &[usize], b: &[(f64, f64)], p: &CPoly, v: &mut Bx, mut others: impl Iterator<Item = impl std::borrow::Borrow<CBf>>) -> bool {
        let mut s = [0u8; 2];
        for (k, x) in [b[0].0, b[0].1].into_iter().enumerate() {
            v.v[ins[0]] = (x, x);
            if !self.derive(used, v) || !self.derive_exact_ok(used, &v.v) {
                return false;
            }
            s[k] = iv_mask(p.eval(&v.v));
        }
        if !(s == [POS, NEG] || s == [NEG, POS]) {
            return false;
        }
        v.v[ins[0]] = b[0];
        if !self.derive(used, v) || !self.derive_exact_ok(used, &v.v) {
            return false;
        }
        others.all(|c| ceval(c.borrow(), v) == Tri::T)
    }
    /// b simplified by the polynomials known to vanish; None: unchanged
    fn under_eqs(b: &Bf, eqs: &[&Poly]) -> Option<Bf> {
        match b {
            Bf::Atom(p, m) => {
                if eqs.iter().any(|e| Self::divides(e, p)) {
                    return Some(if m & ZERO != 0 { Bf::True } else { Bf::False });
                }
                None
            }
            Bf::And(v) | Bf::Or(v) | Bf::Xor(v) => {
                let w: Vec<Option<Bf>> = v.iter().map(|x| Self::under_eqs(x, eqs)).collect();
                if w.iter().all(|x| x.is_none()) {
                    return None;
                }
                let w = w.into_iter().zip(v).map(|(n, o)| n.unwrap_or_else(|| o.clone())).collect();
                Some(match b {
                    Bf::And(_) => Bf::And(w),
                    Bf::Or(_) => Bf::Or(w),
                    _ => Bf::Xor(w),
                })
            }
            _ => None,
        }
    }
    /// e divides p (single-variable polynomials; others only when equal up to sign)
    fn divides(e: &Poly, p: &Poly) -> bool {
        if e == p || *p == e.neg() {
            return true;
        }
        let u = e.used();
        if u.count_ones() != 1 || p.used() != u || p.total_degree() < e.total_degree() {
            return false;
        }
        let x = u.trailing_zeros() as usize;
        let (a, b) = (e.univ_groups(x), p.univ_groups(x));
        a.len() == 1 && b.len() == 1 && crate::poly::ugcd(&a[0], &b[0]).len() == a[0].len()
    }
    /// at a point: every square root certainly exists (radicand not possibly negative)
    fn derive_exact_ok(&self, need: u64, v: &[(f64, f64)]) -> bool {
        for i in 0..self.vars.len() {
            if need >> i & 1 == 1 {
                if let CDef::Sqrt(p) = &self.cdefs[i] {
                    if p.eval(v).0 < 0.0 {
                        return false;
                    }
                }
            }
        }
        true
    }
}
/// a short dyadic rational near the middle of the interval
fn nice_mid(l: f64, h: f64) -> f64 {
    let m = 0.5 * (l + h);
    if h > l {
        let s = (0.25 * (h - l)).log2().floor();
        let k = s.exp2();
        let r = (m / k).round() * k;
        if r >= l && r <= h {
            return r;
        }
    }
    m
}
