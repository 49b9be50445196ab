//! `Sym`: a symbolic real number implementing the library's `Real` trait, and the
//! `Dom` abstraction that lets one scenario run symbolically and natively (f64).
use crate::engine::*;
use crate::poly::Poly;
use crate::z::{Q, Z};
use cavalier_contours::core::traits::{FuzzyEq, FuzzyOrd, Real};
use num_traits::{Bounded, Num, NumCast, One, ToPrimitive, Zero};
use std::cell::RefCell;
use std::cmp::Ordering;
use std::ops::*;
use std::rc::Rc;

#[derive(Clone, Copy)]
pub struct Sym(pub u32);

fn mk(v: V) -> Sym {
    Sym(with(|e| e.put(v)))
}
pub fn from_q(q: &Q) -> Sym {
    Sym(with(|e| {
        let f = e.fint(q);
        e.put(V::F(Rc::new(f)))
    }))
}
fn int(i: i64) -> Sym {
    from_q(&Q::int(i))
}
pub fn input(name: &str, lo: Q, hi: Q) -> Sym {
    Sym(with(|e| {
        let v = e.input(name, lo, hi);
        if let Some(q) = e.fix.get(&v).cloned() {
            let f = e.fint(&q);
            return e.put(V::F(Rc::new(f)));
        }
        e.put(V::F(Rc::new(Frac {
            n: Poly::var(v),
            dc: Z::one(),
            den: vec![],
        })))
    }))
}

fn add_v(e: &mut Eng, a: V, b: V, sub: bool) -> V {
    match (a, b) {
        (V::F(a), V::F(b)) => V::F(Rc::new(e.fadd(&a, &b, sub))),
        (V::NaN, _) | (_, V::NaN) => V::NaN,
        (V::Inf(p), V::Inf(q)) => {
            let q = if sub { !q } else { q };
            if p == q {
                V::Inf(p)
            } else {
                V::NaN
            }
        }
        (V::Inf(p), _) => V::Inf(p),
        (_, V::Inf(q)) => V::Inf(if sub { !q } else { q }),
    }
}
fn mul_v(e: &mut Eng, a: V, b: V) -> V {
    match (a, b) {
        (V::F(a), V::F(b)) => V::F(Rc::new(e.fmul(&a, &b))),
        (V::NaN, _) | (_, V::NaN) => V::NaN,
        (V::Inf(p), V::Inf(q)) => V::Inf(p == q),
        (V::Inf(p), V::F(f)) | (V::F(f), V::Inf(p)) => match e.sign3(&f.n) {
            0 => V::NaN,
            s => V::Inf(p == (s > 0)),
        },
    }
}
fn div_v(e: &mut Eng, a: V, b: V) -> V {
    match (a, b) {
        (V::F(a), V::F(b)) => e.fdiv(&a, &b),
        (V::F(_), V::Inf(_)) => V::F(Rc::new(e.fint(&Q::int(0)))),
        (V::Inf(p), V::F(f)) => match e.sign3(&f.n) {
            0 => V::Inf(p),
            s => V::Inf(p == (s > 0)),
        },
        _ => V::NaN,
    }
}
/// sign test on a - b
fn cmp_decide(a: Sym, b: Sym, rel: u8) -> bool {
    with(|e| match (e.get(a.0), e.get(b.0)) {
        (V::NaN, _) | (_, V::NaN) => false,
        (V::F(x), V::F(y)) => {
            let d = e.fadd(&x, &y, true);
            e.decide(&d.n, rel)
        }
        (V::Inf(p), V::Inf(q)) => {
            let m = match (p as i32) - (q as i32) {
                0 => ZERO,
                1 => POS,
                _ => NEG,
            };
            rel & m != 0
        }
        (V::Inf(p), _) => rel & if p { POS } else { NEG } != 0,
        (_, V::Inf(q)) => rel & if q { NEG } else { POS } != 0,
    })
}

impl PartialEq for Sym {
    fn eq(&self, o: &Sym) -> bool {
        cmp_decide(*self, *o, ZERO)
    }
    fn ne(&self, o: &Sym) -> bool {
        !cmp_decide(*self, *o, ZERO)
    }
}
impl PartialOrd for Sym {
    fn partial_cmp(&self, o: &Sym) -> Option<Ordering> {
        if cmp_decide(*self, *o, NEG) {
            Some(Ordering::Less)
        } else if cmp_decide(*self, *o, ZERO) {
            Some(Ordering::Equal)
        } else if cmp_decide(*self, *o, POS) {
            Some(Ordering::Greater)
        } else {
            None
        }
    }
    fn lt(&self, o: &Sym) -> bool {
        cmp_decide(*self, *o, NEG)
    }
    fn le(&self, o: &Sym) -> bool {
        cmp_decide(*self, *o, NEG | ZERO)
    }
    fn gt(&self, o: &Sym) -> bool {
        cmp_decide(*self, *o, POS)
    }
    fn ge(&self, o: &Sym) -> bool {
        cmp_decide(*self, *o, POS | ZERO)
    }
}
impl Add for Sym {
    type Output = Sym;
    fn add(self, o: Sym) -> Sym {
        Sym(with(|e| {
            let (a, b) = (e.get(self.0), e.get(o.0));
            let r = add_v(e, a, b, false);
            e.put(r)
        }))
    }
}
impl Sub for Sym {
    type Output = Sym;
    fn sub(self, o: Sym) -> Sym {
        Sym(with(|e| {
            let (a, b) = (e.get(self.0), e.get(o.0));
            let r = add_v(e, a, b, true);
            e.put(r)
        }))
    }
}
impl Mul for Sym {
    type Output = Sym;
    fn mul(self, o: Sym) -> Sym {
        Sym(with(|e| {
            let (a, b) = (e.get(self.0), e.get(o.0));
            let r = mul_v(e, a, b);
            e.put(r)
        }))
    }
}
impl Div for Sym {
    type Output = Sym;
    fn div(self, o: Sym) -> Sym {
        Sym(with(|e| {
            let (a, b) = (e.get(self.0), e.get(o.0));
            let r = div_v(e, a, b);
            e.put(r)
        }))
    }
}
impl Rem for Sym {
    type Output = Sym;
    fn rem(self, _o: Sym) -> Sym {
        abort("unsupported operation: rem")
    }
}
impl Neg for Sym {
    type Output = Sym;
    fn neg(self) -> Sym {
        Sym(with(|e| {
            let r = match e.get(self.0) {
                V::F(a) => V::F(Rc::new(e.fneg(&a))),
                V::NaN => V::NaN,
                V::Inf(p) => V::Inf(!p),
            };
            e.put(r)
        }))
    }
}
impl AddAssign for Sym {
    fn add_assign(&mut self, o: Sym) {
        *self = *self + o
    }
}
impl Zero for Sym {
    fn zero() -> Sym {
        int(0)
    }
    fn is_zero(&self) -> bool {
        *self == int(0)
    }
}
impl One for Sym {
    fn one() -> Sym {
        int(1)
    }
}
impl Num for Sym {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Sym, ()> {
        Err(())
    }
}
impl Default for Sym {
    fn default() -> Sym {
        int(0)
    }
}
impl std::fmt::Debug for Sym {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Sym({})", self.hint())
    }
}
impl std::fmt::Display for Sym {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Sym({})", self.hint())
    }
}
impl Sym {
    pub fn hint(&self) -> f64 {
        with(|e| match e.get(self.0) {
            V::F(a) => e.fhint(&a),
            V::NaN => f64::NAN,
            V::Inf(true) => f64::INFINITY,
            V::Inf(false) => f64::NEG_INFINITY,
        })
    }
    fn const_f64(&self) -> Option<f64> {
        with(|e| match e.get(self.0) {
            V::F(a) => {
                if a.den.is_empty() {
                    a.n.as_const().map(|c| Q::new(c, a.dc.clone()).to_f64())
                } else {
                    None
                }
            }
            V::NaN => Some(f64::NAN),
            V::Inf(true) => Some(f64::INFINITY),
            V::Inf(false) => Some(f64::NEG_INFINITY),
        })
    }
    pub fn describe(&self) -> String {
        with(|e| match e.get(self.0) {
            V::F(a) => format!("({:?}) / {:?} {:?}", a.n, a.dc, a.den),
            v => format!("{:?}", v),
        })
    }
}
impl ToPrimitive for Sym {
    fn to_i64(&self) -> Option<i64> {
        match self.const_f64() {
            Some(v) => v.to_i64(),
            None => abort("conversion of a symbolic value to an integer"),
        }
    }
    fn to_u64(&self) -> Option<u64> {
        match self.const_f64() {
            Some(v) => v.to_u64(),
            None => abort("conversion of a symbolic value to an integer"),
        }
    }
    fn to_f64(&self) -> Option<f64> {
        match self.const_f64() {
            Some(v) => Some(v),
            // the library itself never converts; the spatial index does, for the sort keys (order
            // of the leaves) of more than 16 boxes. Any order makes a valid index: take one that
            // does not depend on the value.
            None => with(|e| {
                e.sort_keys += 1;
                Some((e.sort_keys * 7 % 13) as f64)
            }),
        }
    }
}
impl NumCast for Sym {
    fn from<T: ToPrimitive>(n: T) -> Option<Sym> {
        let v = n.to_f64()?;
        if v.is_nan() {
            return Some(mk(V::NaN));
        }
        if v.is_infinite() {
            return Some(mk(V::Inf(v > 0.0)));
        }
        // multiples of pi
        if v != 0.0 {
            let r = v / std::f64::consts::PI * 24.0;
            if (r - r.round()).abs() < 1e-12 && r.round().abs() < 1000.0 {
                return Some(Sym(with(|e| {
                    let p = e.pi_var();
                    let q = Q::new(Z::S(r.round() as i64), Z::S(24));
                    e.put(V::F(Rc::new(Frac {
                        n: Poly::var(p).scale(&q.n),
                        dc: q.d,
                        den: vec![],
                    })))
                })));
            }
        }
        Some(from_q(&Q::from_f64_decimal(v)))
    }
}
impl Bounded for Sym {
    fn min_value() -> Sym {
        mk(V::Inf(false))
    }
    fn max_value() -> Sym {
        mk(V::Inf(true))
    }
}
macro_rules! unsup {
    ($($n:ident($($t:ty),*);)*) => {
        $(fn $n(self $(, _: $t)*) -> Sym { abort(concat!("unsupported operation: ", stringify!($n))) })*
    };
}
impl num_traits::real::Real for Sym {
    fn min_value() -> Sym {
        mk(V::Inf(false))
    }
    fn min_positive_value() -> Sym {
        from_q(&Q::from_f64_decimal(f64::MIN_POSITIVE))
    }
    fn epsilon() -> Sym {
        from_q(&Q::from_f64_decimal(f64::EPSILON))
    }
    fn max_value() -> Sym {
        mk(V::Inf(true))
    }
    fn floor(self) -> Sym {
        Sym(with(|e| {
            let r = match e.get(self.0) {
                V::F(a) => V::F(Rc::new(e.ffloor(&a))),
                v => v,
            };
            e.put(r)
        }))
    }
    fn ceil(self) -> Sym {
        -((-self).floor())
    }
    fn round(self) -> Sym {
        let h = from_q(&Q::new(Z::S(1), Z::S(2)));
        if self < int(0) {
            -((-self + h).floor())
        } else {
            (self + h).floor()
        }
    }
    fn trunc(self) -> Sym {
        if self < int(0) {
            -((-self).floor())
        } else {
            self.floor()
        }
    }
    fn fract(self) -> Sym {
        self - self.trunc()
    }
    fn abs(self) -> Sym {
        if self < int(0) {
            -self
        } else {
            self
        }
    }
    fn signum(self) -> Sym {
        if self < int(0) {
            int(-1)
        } else {
            int(1)
        }
    }
    fn is_sign_positive(self) -> bool {
        !(self < int(0))
    }
    fn is_sign_negative(self) -> bool {
        self < int(0)
    }
    fn mul_add(self, a: Sym, b: Sym) -> Sym {
        self * a + b
    }
    fn recip(self) -> Sym {
        int(1) / self
    }
    fn powi(self, n: i32) -> Sym {
        let mut r = int(1);
        for _ in 0..n.unsigned_abs() {
            r = r * self;
        }
        if n < 0 {
            int(1) / r
        } else {
            r
        }
    }
    fn sqrt(self) -> Sym {
        Sym(with(|e| {
            let r = match e.get(self.0) {
                V::F(a) => e.fsqrt(&a),
                V::Inf(true) => V::Inf(true),
                _ => V::NaN,
            };
            e.put(r)
        }))
    }
    fn max(self, o: Sym) -> Sym {
        if self < o {
            o
        } else {
            self
        }
    }
    fn min(self, o: Sym) -> Sym {
        if o < self {
            o
        } else {
            self
        }
    }
    fn hypot(self, o: Sym) -> Sym {
        (self * self + o * o).sqrt()
    }
    fn sin(self) -> Sym {
        self.sin_cos().0
    }
    fn cos(self) -> Sym {
        self.sin_cos().1
    }
    fn tan(self) -> Sym {
        Sym(with(|e| {
            let r = match e.get(self.0) {
                V::F(a) => e.ftan(&a),
                _ => V::NaN,
            };
            e.put(r)
        }))
    }
    fn atan(self) -> Sym {
        self.atan2(int(1))
    }
    fn acos(self) -> Sym {
        let s = (int(1) - self * self).sqrt();
        s.atan2(self)
    }
    fn asin(self) -> Sym {
        let c = (int(1) - self * self).sqrt();
        self.atan2(c)
    }
    fn atan2(self, x: Sym) -> Sym {
        Sym(with(|e| {
            let r = match (e.get(self.0), e.get(x.0)) {
                (V::F(a), V::F(b)) => V::F(Rc::new(e.fatan2(&a, &b))),
                (V::NaN, _) | (_, V::NaN) => V::NaN,
                _ => abort("atan2 of infinity"),
            };
            e.put(r)
        }))
    }
    fn sin_cos(self) -> (Sym, Sym) {
        let (s, c) = with(|e| match e.get(self.0) {
            V::F(a) => {
                let (s, c) = e.fsin_cos(&a);
                (e.put(s), e.put(c))
            }
            _ => (e.put(V::NaN), e.put(V::NaN)),
        });
        (Sym(s), Sym(c))
    }
    fn to_degrees(self) -> Sym {
        self * int(180) / Sym::pi()
    }
    fn to_radians(self) -> Sym {
        self * Sym::pi() / int(180)
    }
    unsup! {
        powf(Sym); exp(); exp2(); ln(); log(Sym); log2(); log10(); abs_sub(Sym); cbrt();
        exp_m1(); ln_1p(); sinh(); cosh(); tanh(); asinh(); acosh(); atanh();
    }
}
impl static_aabb2d_index::IndexableNum for Sym {
    fn total_cmp(&self, o: &Sym) -> Ordering {
        self.partial_cmp(o).unwrap_or(Ordering::Equal)
    }
}
// same contract as the library's f64 implementation (that implementation itself is decided
// bit-precisely by the `fuzzy_float` check)
impl FuzzyEq for Sym {
    fn fuzzy_epsilon() -> Sym {
        from_q(&Q::from_f64_decimal(<f64 as FuzzyEq>::fuzzy_epsilon()))
    }
    fn fuzzy_eq_eps(&self, o: Sym, eps: Sym) -> bool {
        let d = *self - o;
        if with(|e| e.fuzz_k) > 0 {
            return ideal_eq(d, eps);
        }
        d < eps && d > -eps
    }
    fn fuzzy_eq_zero_eps(&self, eps: Sym) -> bool {
        if with(|e| e.fuzz_k) > 0 {
            return ideal_eq(*self, eps);
        }
        *self < eps && *self > -eps
    }
}
/// Idealised tolerance: values compared fuzzily are equal, or further apart than k times the
/// tolerance (the band in between is outside the claim).
fn ideal_eq(d: Sym, eps: Sym) -> bool {
    let z = int(0);
    if d == z {
        return true;
    }
    let w = eps * int(with(|e| e.fuzz_k) as i64);
    Sym::require(F::or(vec![F::le(w, d), F::le(d, -w)]));
    false
}
impl FuzzyOrd for Sym {
    fn fuzzy_gt_eps(&self, o: Sym, eps: Sym) -> bool {
        if with(|e| e.fuzz_k) > 0 {
            return o.fuzzy_lt_eps(*self, eps);
        }
        *self + eps > o
    }
    fn fuzzy_lt_eps(&self, o: Sym, eps: Sym) -> bool {
        let k = with(|e| e.fuzz_k);
        if k > 0 {
            let d = *self - o;
            if d <= int(0) {
                return true;
            }
            Sym::require(F::le(eps * int(k as i64), d));
            return false;
        }
        *self < o + eps
    }
}
impl Real for Sym {
    fn pi() -> Sym {
        Sym(with(|e| {
            let p = e.pi_var();
            e.put(V::F(Rc::new(Frac {
                n: Poly::var(p),
                dc: Z::one(),
                den: vec![],
            })))
        }))
    }
    fn tau() -> Sym {
        int(2) * Self::pi()
    }
}

// ---------------------------------------------------------------------------------------

/// Quantifier-free assertion over values of a domain.
#[derive(Clone, Debug)]
pub enum F<T> {
    True,
    False,
    Lt(T, T),
    Le(T, T),
    And(Vec<F<T>>),
    Or(Vec<F<T>>),
    Xor(Vec<F<T>>),
    Not(Box<F<T>>),
}
impl<T: Dom> F<T> {
    pub fn b(v: bool) -> F<T> {
        if v {
            F::True
        } else {
            F::False
        }
    }
    pub fn not(self) -> F<T> {
        F::Not(Box::new(self))
    }
    pub fn and(v: Vec<F<T>>) -> F<T> {
        F::And(v)
    }
    pub fn or(v: Vec<F<T>>) -> F<T> {
        F::Or(v)
    }
    /// |a - b| <= tol
    pub fn near(a: T, b: T, tol: T) -> F<T> {
        let d = a - b;
        F::And(vec![F::Le(d, tol), F::Le(-tol, d)])
    }
    pub fn bool(b: bool) -> F<T> {
        if b { F::and(vec![]) } else { F::False }
    }
    /// if c then a else b, with the implied clause a or b
    pub fn ite(c: F<T>, a: F<T>, b: F<T>) -> F<T> {
        F::and(vec![F::or(vec![c.clone().not(), a.clone()]), F::or(vec![c, b.clone()]), F::or(vec![a, b])])
    }
    pub fn iff(a: F<T>, b: F<T>) -> F<T> {
        F::xor(a, b).not()
    }
    pub fn xor(a: F<T>, b: F<T>) -> F<T> {
        F::Xor(vec![a, b])
    }
    pub fn implies(a: F<T>, b: F<T>) -> F<T> {
        F::Or(vec![a.not(), b])
    }
    pub fn lt(a: T, b: T) -> F<T> {
        F::Lt(a, b)
    }
    pub fn le(a: T, b: T) -> F<T> {
        F::Le(a, b)
    }
    /// a = b (within the domain's exactness slack)
    pub fn eq(a: T, b: T) -> F<T> {
        F::near(a, b, T::zero_tol())
    }
}

pub trait Dom: Real + std::fmt::Display {
    fn q(n: i64, d: i64) -> Self;
    fn i(n: i64) -> Self {
        Self::q(n, 1)
    }
    /// decimal constant
    fn d(v: f64) -> Self;
    /// tolerance: the symbolic side refutes only errors above twice the native tolerance, so
    /// that every counterexample survives rounding when replayed
    fn tol(v: f64) -> Self;
    fn check(what: &str, f: F<Self>);
    /// branching assumption: ends the path when false
    fn assume(f: F<Self>);
    /// branching truth value: ends up concrete on every path
    fn test(f: F<Self>) -> bool {
        match f {
            F::True => true,
            F::False => false,
            F::Lt(a, b) => a < b,
            F::Le(a, b) => a <= b,
            F::And(v) => v.into_iter().all(Self::test),
            F::Or(v) => v.into_iter().any(Self::test),
            F::Xor(v) => v.into_iter().filter(|x| Self::test(x.clone())).count() % 2 == 1,
            F::Not(x) => !Self::test(*x),
        }
    }
    /// precondition added to the path condition as one formula (no path split)
    fn require(f: F<Self>);
    /// slack for exact-coincidence tests: zero symbolically, 1e-9 natively
    fn zero_tol() -> Self;
    /// idealise tolerances from here on (see `ideal_eq`); k = 0: take them literally
    fn ideal(k: u32);
    fn note(v: u64);
    /// a value to compare between the symbolic path and its native replay
    fn watch(v: Self);
    fn val(self) -> f64;
    /// known to be the same value, without asking the solver
    fn same(self, o: Self) -> bool;
    const SYMBOLIC: bool;
}

fn to_bf(f: &F<Sym>) -> Bf {
    match f {
        F::True => Bf::True,
        F::False => Bf::False,
        F::Lt(a, b) => cmp_bf(*a, *b, NEG),
        F::Le(a, b) => cmp_bf(*a, *b, NEG | ZERO),
        F::And(v) => Bf::And(v.iter().map(to_bf).collect()),
        F::Or(v) => Bf::Or(v.iter().map(to_bf).collect()),
        F::Xor(v) => Bf::Xor(v.iter().map(to_bf).collect()),
        F::Not(x) => Eng::bf_not(&to_bf(x)),
    }
}
fn cmp_bf(a: Sym, b: Sym, rel: u8) -> Bf {
    with(|e| match (e.get(a.0), e.get(b.0)) {
        (V::F(x), V::F(y)) => {
            let d = e.fadd(&x, &y, true);
            let p = e.angle_free(&d.n);
            match p.as_const() {
                Some(c) => {
                    let m = match c.sign() {
                        0 => ZERO,
                        1 => POS,
                        _ => NEG,
                    };
                    if m & rel != 0 {
                        Bf::True
                    } else {
                        Bf::False
                    }
                }
                None => Bf::Atom(p, rel),
            }
        }
        (V::NaN, _) | (_, V::NaN) => Bf::False,
        (x, y) => {
            let r = |v: &V| match v {
                V::Inf(true) => 1,
                V::Inf(false) => -1,
                _ => 0,
            };
            let m = match r(&x) - r(&y) {
                0 => ZERO,
                s if s > 0 => POS,
                _ => NEG,
            };
            if m & rel != 0 {
                Bf::True
            } else {
                Bf::False
            }
        }
    })
}

impl Dom for Sym {
    const SYMBOLIC: bool = true;
    fn q(n: i64, d: i64) -> Sym {
        from_q(&Q::new(Z::S(n), Z::S(d)))
    }
    fn d(v: f64) -> Sym {
        from_q(&Q::from_f64_decimal(v))
    }
    fn tol(v: f64) -> Sym {
        Sym::d(v) * int(2)
    }
    fn check(what: &str, f: F<Sym>) {
        let b = to_bf(&f);
        with(|e| e.check(what, &b));
    }
    fn assume(f: F<Sym>) {
        fn ev(f: &F<Sym>) -> bool {
            match f {
                F::True => true,
                F::False => false,
                F::Lt(a, b) => a < b,
                F::Le(a, b) => a <= b,
                F::And(v) => v.iter().all(ev),
                F::Or(v) => v.iter().any(ev),
                F::Xor(v) => v.iter().filter(|x| ev(x)).count() % 2 == 1,
                F::Not(x) => !ev(x),
            }
        }
        if !ev(&f) {
            abort("assume");
        }
    }
    fn require(f: F<Sym>) {
        let b = to_bf(&f);
        let ok = with(|e| e.require(&b));
        if !ok {
            abort("assume");
        }
    }
    fn zero_tol() -> Sym {
        int(0)
    }
    fn ideal(k: u32) {
        with(|e| e.fuzz_k = k);
    }
    fn note(v: u64) {
        with(|e| {
            e.note = e.note.wrapping_mul(1_000_003).wrapping_add(v + 1);
        });
    }
    fn watch(v: Sym) {
        with(|e| e.watch.push(v.0));
    }
    fn val(self) -> f64 {
        self.hint()
    }
    fn same(self, o: Sym) -> bool {
        self.0 == o.0
    }
}

#[derive(Default)]
pub struct Native {
    pub failures: Vec<String>,
    pub note: u64,
    pub watch: Vec<f64>,
    pub checks: u64,
    pub verbose: bool,
}
thread_local! {
    pub static NATIVE: RefCell<Native> = RefCell::new(Native::default());
}
fn ev64(f: &F<f64>) -> bool {
    match f {
        F::True => true,
        F::False => false,
        F::Lt(a, b) => a < b,
        F::Le(a, b) => a <= b,
        F::And(v) => v.iter().all(ev64),
        F::Or(v) => v.iter().any(ev64),
        F::Xor(v) => v.iter().filter(|x| ev64(x)).count() % 2 == 1,
        F::Not(x) => !ev64(x),
    }
}
impl Dom for f64 {
    const SYMBOLIC: bool = false;
    fn q(n: i64, d: i64) -> f64 {
        n as f64 / d as f64
    }
    fn d(v: f64) -> f64 {
        v
    }
    fn tol(v: f64) -> f64 {
        v
    }
    fn check(what: &str, f: F<f64>) {
        let ok = ev64(&f);
        NATIVE.with(|n| {
            let mut n = n.borrow_mut();
            n.checks += 1;
            if !ok {
                let _ = &f;
                n.failures.push(what.to_string());
            }
        })
    }
    fn assume(f: F<f64>) {
        if !ev64(&f) {
            abort("assume");
        }
    }
    fn require(f: F<f64>) {
        Self::assume(f)
    }
    fn zero_tol() -> f64 {
        1e-9
    }
    fn ideal(_k: u32) {}
    fn note(v: u64) {
        NATIVE.with(|n| {
            let mut n = n.borrow_mut();
            n.note = n.note.wrapping_mul(1_000_003).wrapping_add(v + 1);
        })
    }
    fn watch(v: f64) {
        NATIVE.with(|n| n.borrow_mut().watch.push(v));
    }
    fn val(self) -> f64 {
        self
    }
    fn same(self, o: f64) -> bool {
        self == o
    }
}
