//! Sparse multivariate polynomials with integer coefficients.
use crate::z::{next_down, next_up, Z};
use std::cmp::Ordering;

pub const NV: usize = 64;

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Mono(pub [u8; NV]);
impl Mono {
    pub const ONE: Mono = Mono([0; NV]);
    pub fn var(v: usize) -> Mono {
        let mut m = Mono::ONE;
        m.0[v] = 1;
        m
    }
    pub fn mul(&self, o: &Mono) -> Mono {
        let mut r = *self;
        for i in 0..NV {
            let e = r.0[i] as u32 + o.0[i] as u32;
            if e > 200 {
                crate::engine::abort("degree limit");
            }
            r.0[i] = e as u8;
        }
        r
    }
    pub fn div(&self, o: &Mono) -> Option<Mono> {
        let mut r = *self;
        for i in 0..NV {
            if r.0[i] < o.0[i] {
                return None;
            }
            r.0[i] -= o.0[i];
        }
        Some(r)
    }
    pub fn is_one(&self) -> bool {
        *self == Mono::ONE
    }
    pub fn degree(&self) -> u32 {
        self.0.iter().map(|x| *x as u32).sum()
    }
}
impl PartialOrd for Mono {
    fn partial_cmp(&self, o: &Mono) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Mono {
    // lexicographic with the highest variable index most significant
    fn cmp(&self, o: &Mono) -> Ordering {
        for i in (0..NV).rev() {
            match self.0[i].cmp(&o.0[i]) {
                Ordering::Equal => {}
                x => return x,
            }
        }
        Ordering::Equal
    }
}

/// Terms sorted by descending monomial, no zero coefficients.
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Poly(pub Vec<(Mono, Z)>);

impl std::fmt::Debug for Poly {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if self.0.is_empty() {
            return write!(f, "0");
        }
        for (k, (m, c)) in self.0.iter().enumerate() {
            if k > 0 {
                write!(f, " + ")?;
            }
            write!(f, "{:?}", c)?;
            for i in 0..NV {
                if m.0[i] > 0 {
                    write!(f, "*v{}", i)?;
                    if m.0[i] > 1 {
                        write!(f, "^{}", m.0[i])?;
                    }
                }
            }
        }
        Ok(())
    }
}

impl Poly {
    pub fn zero() -> Poly {
        Poly(vec![])
    }
    pub fn konst(c: Z) -> Poly {
        if c.is_zero() {
            Poly(vec![])
        } else {
            Poly(vec![(Mono::ONE, c)])
        }
    }
    pub fn one() -> Poly {
        Poly::konst(Z::one())
    }
    pub fn var(v: usize) -> Poly {
        Poly(vec![(Mono::var(v), Z::one())])
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn is_const(&self) -> bool {
        self.0.is_empty() || (self.0.len() == 1 && self.0[0].0.is_one())
    }
    pub fn as_const(&self) -> Option<Z> {
        if self.0.is_empty() {
            Some(Z::zero())
        } else if self.is_const() {
            Some(self.0[0].1.clone())
        } else {
            None
        }
    }
    pub fn is_one(&self) -> bool {
        self.0.len() == 1 && self.0[0].0.is_one() && self.0[0].1.is_one()
    }
    pub fn neg(&self) -> Poly {
        Poly(self.0.iter().map(|(m, c)| (*m, c.neg())).collect())
    }
    pub fn scale(&self, k: &Z) -> Poly {
        if k.is_zero() {
            return Poly::zero();
        }
        if k.is_one() {
            return self.clone();
        }
        Poly(self.0.iter().map(|(m, c)| (*m, c.mul(k))).collect())
    }
    pub fn div_const(&self, k: &Z) -> Poly {
        if k.is_one() {
            return self.clone();
        }
        Poly(self.0.iter().map(|(m, c)| (*m, c.divexact(k))).collect())
    }
    fn merge(&self, o: &Poly, sub: bool) -> Poly {
        let mut r = Vec::with_capacity(self.0.len() + o.0.len());
        let (mut i, mut j) = (0, 0);
        while i < self.0.len() && j < o.0.len() {
            match self.0[i].0.cmp(&o.0[j].0) {
                Ordering::Greater => {
                    r.push(self.0[i].clone());
                    i += 1;
                }
                Ordering::Less => {
                    let (m, c) = &o.0[j];
                    r.push((*m, if sub { c.neg() } else { c.clone() }));
                    j += 1;
                }
                Ordering::Equal => {
                    let c = if sub {
                        self.0[i].1.sub(&o.0[j].1)
                    } else {
                        self.0[i].1.add(&o.0[j].1)
                    };
                    if !c.is_zero() {
                        r.push((self.0[i].0, c));
                    }
                    i += 1;
                    j += 1;
                }
            }
        }
        r.extend_from_slice(&self.0[i..]);
        for (m, c) in &o.0[j..] {
            r.push((*m, if sub { c.neg() } else { c.clone() }));
        }
        Poly(r)
    }
    pub fn add(&self, o: &Poly) -> Poly {
        self.merge(o, false)
    }
    pub fn sub(&self, o: &Poly) -> Poly {
        self.merge(o, true)
    }
    pub fn from_terms(mut t: Vec<(Mono, Z)>) -> Poly {
        t.sort_by(|a, b| b.0.cmp(&a.0));
        let mut r: Vec<(Mono, Z)> = Vec::with_capacity(t.len());
        for (m, c) in t {
            if let Some(l) = r.last_mut() {
                if l.0 == m {
                    l.1 = l.1.add(&c);
                    continue;
                }
            }
            if let Some(l) = r.last() {
                if l.1.is_zero() {
                    r.pop();
                }
            }
            r.push((m, c));
        }
        if let Some(l) = r.last() {
            if l.1.is_zero() {
                r.pop();
            }
        }
        Poly(r)
    }
    pub fn mul_term(&self, m: &Mono, k: &Z) -> Poly {
        Poly(self.0.iter().map(|(a, c)| (a.mul(m), c.mul(k))).collect())
    }
    /// plain product (no reduction of algebraic variables)
    pub fn mul_raw(&self, o: &Poly) -> Poly {
        if self.is_zero() || o.is_zero() {
            return Poly::zero();
        }
        if let Some(c) = o.as_const() {
            return self.scale(&c);
        }
        if let Some(c) = self.as_const() {
            return o.scale(&c);
        }
        if o.0.len() == 1 {
            return self.mul_term(&o.0[0].0, &o.0[0].1);
        }
        if self.0.len() == 1 {
            return o.mul_term(&self.0[0].0, &self.0[0].1);
        }
        if self.0.len() * o.0.len() > 400_000 {
            crate::engine::abort("expression size limit");
        }
        let mut t = Vec::with_capacity(self.0.len() * o.0.len());
        for (m, c) in &self.0 {
            for (n, d) in &o.0 {
                t.push((m.mul(n), c.mul(d)));
            }
        }
        Poly::from_terms(t)
    }
    pub fn content(&self) -> Z {
        let mut g = Z::zero();
        for (_, c) in &self.0 {
            g = g.gcd(c);
            if g.is_one() {
                break;
            }
        }
        g
    }
    /// (content with sign of leading coefficient, primitive part with positive lead)
    pub fn primitive(&self) -> (Z, Poly) {
        if self.is_zero() {
            return (Z::zero(), Poly::zero());
        }
        let mut g = self.content();
        if self.0[0].1.sign() < 0 {
            g = g.neg();
        }
        let p = self.div_const(&g);
        (g, p)
    }
    pub fn used(&self) -> u64 {
        let mut u = 0u64;
        for (m, _) in &self.0 {
            for i in 0..NV {
                if m.0[i] > 0 {
                    u |= 1 << i;
                }
            }
        }
        u
    }
    /// greatest common monomial
    pub fn mono_content(&self) -> Mono {
        let mut it = self.0.iter();
        let Some((m, _)) = it.next() else {
            return Mono::ONE;
        };
        let mut r = *m;
        for (m, _) in it {
            for i in 0..NV {
                r.0[i] = r.0[i].min(m.0[i]);
            }
        }
        r
    }
    pub fn div_mono(&self, d: &Mono) -> Poly {
        Poly(
            self.0
                .iter()
                .map(|(m, c)| (m.div(d).unwrap(), c.clone()))
                .collect(),
        )
    }
    pub fn max_exp(&self, v: usize) -> u8 {
        self.0.iter().map(|(m, _)| m.0[v]).max().unwrap_or(0)
    }
    pub fn total_degree(&self) -> u32 {
        self.0.iter().map(|(m, _)| m.degree()).max().unwrap_or(0)
    }
    /// split as A + B*v (requires exponent of v <= 1)
    pub fn split_linear(&self, v: usize) -> (Poly, Poly) {
        let mut a = vec![];
        let mut b = vec![];
        for (m, c) in &self.0 {
            if m.0[v] == 0 {
                a.push((*m, c.clone()));
            } else {
                debug_assert!(m.0[v] == 1);
                let mut n = *m;
                n.0[v] = 0;
                b.push((n, c.clone()));
            }
        }
        (Poly(a), Poly::from_terms(b))
    }
    /// coefficient list by power of v
    pub fn coeffs_in(&self, v: usize) -> Vec<Poly> {
        let d = self.max_exp(v) as usize;
        let mut r = vec![vec![]; d + 1];
        for (m, c) in &self.0 {
            let e = m.0[v] as usize;
            let mut n = *m;
            n.0[v] = 0;
            r[e].push((n, c.clone()));
        }
        r.into_iter().map(Poly::from_terms).collect()
    }
    /// exact division
    pub fn div_exact(&self, d: &Poly) -> Option<Poly> {
        if d.is_zero() {
            return None;
        }
        if self.is_zero() {
            return Some(Poly::zero());
        }
        if let Some(c) = d.as_const() {
            if self.0.iter().all(|(_, x)| x.divisible(&c)) {
                return Some(self.div_const(&c));
            }
            return None;
        }
        for i in 0..NV {
            if d.0[0].0 .0[i] > 0 && self.max_exp(i) < d.max_exp(i) {
                return None;
            }
        }
        // quick test on trailing term
        let (lt, ltc) = self.0.last().unwrap();
        let (dt, dtc) = d.0.last().unwrap();
        if lt.div(dt).is_none() || !ltc.divisible(dtc) {
            return None;
        }
        let (dm, dc) = &d.0[0];
        let mut rem = self.clone();
        let mut q = vec![];
        while !rem.is_zero() {
            let (m, c) = &rem.0[0];
            let qm = m.div(dm)?;
            if !c.divisible(dc) {
                return None;
            }
            let qc = c.divexact(dc);
            let t = d.mul_term(&qm, &qc);
            q.push((qm, qc));
            rem = rem.sub(&t);
            if q.len() > 4000 {
                return None;
            }
        }
        Some(Poly::from_terms(q))
    }
    /// r with r*r == self, leading coefficient positive
    pub fn perfect_sqrt(&self) -> Option<Poly> {
        if self.is_zero() {
            return Some(Poly::zero());
        }
        let half = |m: &Mono| -> Option<Mono> {
            let mut r = *m;
            for i in 0..NV {
                if r.0[i] % 2 != 0 {
                    return None;
                }
                r.0[i] /= 2;
            }
            Some(r)
        };
        let (lm, lc) = &self.0[0];
        let rm = half(lm)?;
        let rc = lc.perfect_sqrt()?;
        let (tm, tc) = self.0.last().unwrap();
        half(tm)?;
        tc.perfect_sqrt()?;
        let mut r = Poly(vec![(rm, rc.clone())]);
        let two_lc = rc.mul(&Z::S(2));
        let mut rem = self.sub(&r.mul_raw(&r));
        let mut guard = 0;
        while !rem.is_zero() {
            let (m, c) = &rem.0[0];
            let qm = m.div(&rm)?;
            if !c.divisible(&two_lc) {
                return None;
            }
            let t = Poly(vec![(qm, c.divexact(&two_lc))]);
            // (r+t)^2 = r^2 + 2rt + t^2
            let upd = r.mul_raw(&t).scale(&Z::S(2)).add(&t.mul_raw(&t));
            rem = rem.sub(&upd);
            if qm >= r.0.last().unwrap().0 {
                return None;
            }
            r = r.add(&t);
            guard += 1;
            if guard > 200 {
                return None;
            }
        }
        Some(r)
    }
    pub fn eval_ival(&self, b: &[(f64, f64)]) -> (f64, f64) {
        let mut acc = (0.0, 0.0);
        for (m, c) in &self.0 {
            let mut t = c.to_ival();
            for i in 0..b.len().min(NV) {
                let e = m.0[i];
                if e > 0 {
                    t = imul(t, ipow(b[i], e));
                }
            }
            acc = iadd(acc, t);
        }
        acc
    }
    pub fn eval_f64(&self, b: &[f64]) -> f64 {
        let mut acc = 0.0;
        for (m, c) in &self.0 {
            let mut t = c.to_ival().0;
            for i in 0..b.len().min(NV) {
                for _ in 0..m.0[i] {
                    t *= b[i];
                }
            }
            acc += t;
        }
        acc
    }
    pub fn to_smt(&self) -> String {
        if self.is_zero() {
            return "0.0".into();
        }
        let mut parts = Vec::with_capacity(self.0.len());
        for (m, c) in &self.0 {
            let cs = if c.sign() < 0 {
                format!("(- {}.0)", c.neg().to_dec())
            } else {
                format!("{}.0", c.to_dec())
            };
            if m.is_one() {
                parts.push(cs);
            } else {
                let mut s = String::from("(*");
                if !c.is_one() {
                    s.push(' ');
                    s.push_str(&cs);
                }
                let mut nf = if c.is_one() { 0 } else { 1 };
                for i in 0..NV {
                    for _ in 0..m.0[i] {
                        s.push_str(&format!(" v{}", i));
                        nf += 1;
                    }
                }
                s.push(')');
                if nf == 1 {
                    // single factor: strip (* x)
                    let inner = s[3..s.len() - 1].to_string();
                    parts.push(inner);
                } else {
                    parts.push(s);
                }
            }
        }
        if parts.len() == 1 {
            parts.pop().unwrap()
        } else {
            format!("(+ {})", parts.join(" "))
        }
    }
}

pub fn iadd(a: (f64, f64), b: (f64, f64)) -> (f64, f64) {
    // exact zero keeps exactness
    if a == (0.0, 0.0) {
        return b;
    }
    if b == (0.0, 0.0) {
        return a;
    }
    (next_down(a.0 + b.0), next_up(a.1 + b.1))
}
pub fn imul(a: (f64, f64), b: (f64, f64)) -> (f64, f64) {
    if a == (0.0, 0.0) || b == (0.0, 0.0) {
        return (0.0, 0.0);
    }
    if a == (1.0, 1.0) {
        return b;
    }
    if b == (1.0, 1.0) {
        return a;
    }
    let z = |x: f64| if x.is_nan() { 0.0 } else { x };
    let p = [
        z(a.0 * b.0),
        z(a.0 * b.1),
        z(a.1 * b.0),
        z(a.1 * b.1),
    ];
    let lo = p.iter().cloned().fold(f64::INFINITY, f64::min);
    let hi = p.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
    (
        if lo == 0.0 && a.0 >= 0.0 && b.0 >= 0.0 { 0.0 } else { next_down(lo) },
        next_up(hi),
    )
}
pub fn ipow(a: (f64, f64), e: u8) -> (f64, f64) {
    match e {
        0 => (1.0, 1.0),
        1 => a,
        _ => {
            let mut r = a;
            for _ in 1..e {
                r = imul(r, a);
            }
            if e % 2 == 0 && a.0 < 0.0 && a.1 > 0.0 {
                r.0 = 0.0;
            } else if e % 2 == 0 && r.0 < 0.0 {
                r.0 = 0.0;
            }
            r
        }
    }
}
pub fn isqrt(a: (f64, f64)) -> (f64, f64) {
    let lo = if a.0 <= 0.0 {
        0.0
    } else {
        next_down(a.0.sqrt()).max(0.0)
    };
    let hi = if a.1 <= 0.0 { 0.0 } else { next_up(a.1.sqrt()) };
    (lo, hi)
}

// ---------------------------------------------------------------- univariate integer polys
fn utrim(a: &mut Vec<Z>) {
    while a.last().map(|c| c.is_zero()).unwrap_or(false) {
        a.pop();
    }
}
fn uprim(mut a: Vec<Z>) -> Vec<Z> {
    utrim(&mut a);
    let mut g = Z::zero();
    for c in &a {
        g = g.gcd(c);
    }
    if !g.is_zero() && !g.is_one() {
        for c in &mut a {
            *c = c.divexact(&g);
        }
    }
    if a.last().map(|c| c.sign() < 0).unwrap_or(false) {
        for c in &mut a {
            *c = c.neg();
        }
    }
    a
}
/// greatest common divisor (primitive) of univariate integer polynomials
pub fn ugcd(a: &[Z], b: &[Z]) -> Vec<Z> {
    let (mut a, mut b) = (uprim(a.to_vec()), uprim(b.to_vec()));
    if a.len() < b.len() {
        std::mem::swap(&mut a, &mut b);
    }
    while !b.is_empty() {
        if b.len() == 1 {
            return vec![Z::one()];
        }
        // pseudo remainder
        let mut r = a.clone();
        let lb = b.last().unwrap().clone();
        while r.len() >= b.len() && !r.is_empty() {
            let lr = r.last().unwrap().clone();
            let sh = r.len() - b.len();
            for c in r.iter_mut() {
                *c = c.mul(&lb);
            }
            for (i, c) in b.iter().enumerate() {
                r[i + sh] = r[i + sh].sub(&c.mul(&lr));
            }
            utrim(&mut r);
        }
        a = b;
        b = uprim(r);
    }
    a
}
impl Poly {
    pub fn from_univ(v: usize, c: &[Z]) -> Poly {
        let mut t = vec![];
        for (e, k) in c.iter().enumerate() {
            if !k.is_zero() {
                let mut m = Mono::ONE;
                m.0[v] = e as u8;
                t.push((m, k.clone()));
            }
        }
        Poly::from_terms(t)
    }
    /// coefficient polynomials in x of the monomials in the other variables
    pub fn univ_groups(&self, x: usize) -> Vec<Vec<Z>> {
        let mut g: std::collections::BTreeMap<[u8; NV], Vec<Z>> = Default::default();
        for (m, c) in &self.0 {
            let mut k = m.0;
            let e = k[x] as usize;
            k[x] = 0;
            let v = g.entry(k).or_default();
            while v.len() <= e {
                v.push(Z::zero());
            }
            v[e] = v[e].add(c);
        }
        g.into_values().collect()
    }
}
