//! Arbitrary precision integers: i64 fast path, GMP otherwise.
use std::cmp::Ordering;
use std::os::raw::{c_char, c_double, c_int, c_long, c_ulong};

#[repr(C)]
pub struct MpzT {
    alloc: c_int,
    size: c_int,
    d: *mut u64,
}
extern "C" {
    #[link_name = "__gmpz_init"]
    fn mpz_init(x: *mut MpzT);
    #[link_name = "__gmpz_init_set"]
    fn mpz_init_set(x: *mut MpzT, y: *const MpzT);
    #[link_name = "__gmpz_init_set_si"]
    fn mpz_init_set_si(x: *mut MpzT, v: c_long);
    #[link_name = "__gmpz_clear"]
    fn mpz_clear(x: *mut MpzT);
    #[link_name = "__gmpz_add"]
    fn mpz_add(r: *mut MpzT, a: *const MpzT, b: *const MpzT);
    #[link_name = "__gmpz_sub"]
    fn mpz_sub(r: *mut MpzT, a: *const MpzT, b: *const MpzT);
    #[link_name = "__gmpz_mul"]
    fn mpz_mul(r: *mut MpzT, a: *const MpzT, b: *const MpzT);
    #[link_name = "__gmpz_gcd"]
    fn mpz_gcd(r: *mut MpzT, a: *const MpzT, b: *const MpzT);
    #[link_name = "__gmpz_divexact"]
    fn mpz_divexact(r: *mut MpzT, a: *const MpzT, b: *const MpzT);
    #[link_name = "__gmpz_fdiv_q"]
    fn mpz_fdiv_q(r: *mut MpzT, a: *const MpzT, b: *const MpzT);
    #[link_name = "__gmpz_divisible_p"]
    fn mpz_divisible_p(a: *const MpzT, b: *const MpzT) -> c_int;
    #[link_name = "__gmpz_cmp"]
    fn mpz_cmp(a: *const MpzT, b: *const MpzT) -> c_int;
    #[link_name = "__gmpz_fits_slong_p"]
    fn mpz_fits_slong_p(a: *const MpzT) -> c_int;
    #[link_name = "__gmpz_get_si"]
    fn mpz_get_si(a: *const MpzT) -> c_long;
    #[link_name = "__gmpz_get_d_2exp"]
    fn mpz_get_d_2exp(e: *mut c_long, a: *const MpzT) -> c_double;
    #[link_name = "__gmpz_get_str"]
    fn mpz_get_str(s: *mut c_char, base: c_int, a: *const MpzT) -> *mut c_char;
    #[link_name = "__gmpz_set_str"]
    fn mpz_set_str(a: *mut MpzT, s: *const c_char, base: c_int) -> c_int;
    #[link_name = "__gmpz_sizeinbase"]
    fn mpz_sizeinbase(a: *const MpzT, base: c_int) -> usize;
    #[link_name = "__gmpz_sqrtrem"]
    fn mpz_sqrtrem(r: *mut MpzT, rem: *mut MpzT, a: *const MpzT);
    #[link_name = "__gmpz_pow_ui"]
    fn mpz_pow_ui(r: *mut MpzT, a: *const MpzT, e: c_ulong);
}

pub struct Big(MpzT);
unsafe impl Send for Big {}
unsafe impl Sync for Big {}
impl Big {
    fn new() -> Self {
        unsafe {
            let mut m = std::mem::MaybeUninit::uninit();
            mpz_init(m.as_mut_ptr());
            Big(m.assume_init())
        }
    }
    fn from_i64(v: i64) -> Self {
        unsafe {
            let mut m = std::mem::MaybeUninit::uninit();
            mpz_init_set_si(m.as_mut_ptr(), v);
            Big(m.assume_init())
        }
    }
}
impl Drop for Big {
    fn drop(&mut self) {
        unsafe { mpz_clear(&mut self.0) }
    }
}
impl Clone for Big {
    fn clone(&self) -> Self {
        unsafe {
            let mut m = std::mem::MaybeUninit::uninit();
            mpz_init_set(m.as_mut_ptr(), &self.0);
            Big(m.assume_init())
        }
    }
}

#[derive(Clone)]
pub enum Z {
    S(i64),
    B(Box<Big>),
}
use Z::*;

impl Z {
    pub fn zero() -> Z {
        S(0)
    }
    pub fn one() -> Z {
        S(1)
    }
    fn big(&self) -> Big {
        match self {
            S(v) => Big::from_i64(*v),
            B(b) => (**b).clone(),
        }
    }
    fn norm(b: Big) -> Z {
        unsafe {
            if mpz_fits_slong_p(&b.0) != 0 {
                let v = mpz_get_si(&b.0);
                if v != i64::MIN {
                    return S(v);
                }
            }
        }
        B(Box::new(b))
    }
    fn from_i128(v: i128) -> Z {
        if v > i64::MIN as i128 && v <= i64::MAX as i128 {
            return S(v as i64);
        }
        let neg = v < 0;
        let u = v.unsigned_abs();
        let hi = Z::S((u >> 96) as i64);
        let mid = Z::S(((u >> 48) & 0xffff_ffff_ffff) as i64);
        let lo = Z::S((u & 0xffff_ffff_ffff) as i64);
        let p = Z::S(1i64 << 48);
        let r = hi.mul(&p).add(&mid).mul(&p).add(&lo);
        if neg {
            r.neg()
        } else {
            r
        }
    }
    pub fn is_zero(&self) -> bool {
        matches!(self, S(0))
    }
    pub fn is_one(&self) -> bool {
        matches!(self, S(1))
    }
    pub fn sign(&self) -> i32 {
        match self {
            S(v) => v.signum() as i32,
            B(b) => b.0.size.signum(),
        }
    }
    pub fn neg(&self) -> Z {
        match self {
            S(v) => S(-*v),
            B(_) => S(0).sub(self),
        }
    }
    pub fn abs(&self) -> Z {
        if self.sign() < 0 {
            self.neg()
        } else {
            self.clone()
        }
    }
    pub fn add(&self, o: &Z) -> Z {
        if let (S(a), S(b)) = (self, o) {
            if let Some(c) = a.checked_add(*b) {
                if c != i64::MIN {
                    return S(c);
                }
            }
        }
        let (a, b) = (self.big(), o.big());
        let mut r = Big::new();
        unsafe { mpz_add(&mut r.0, &a.0, &b.0) };
        Z::norm(r)
    }
    pub fn sub(&self, o: &Z) -> Z {
        if let (S(a), S(b)) = (self, o) {
            if let Some(c) = a.checked_sub(*b) {
                if c != i64::MIN {
                    return S(c);
                }
            }
        }
        let (a, b) = (self.big(), o.big());
        let mut r = Big::new();
        unsafe { mpz_sub(&mut r.0, &a.0, &b.0) };
        Z::norm(r)
    }
    pub fn mul(&self, o: &Z) -> Z {
        match (self, o) {
            (S(a), S(b)) => {
                if let Some(c) = a.checked_mul(*b) {
                    if c != i64::MIN {
                        return S(c);
                    }
                }
                let (a, b) = (self.big(), o.big());
                let mut r = Big::new();
                unsafe { mpz_mul(&mut r.0, &a.0, &b.0) };
                Z::norm(r)
            }
            (S(1), _) => o.clone(),
            (_, S(1)) => self.clone(),
            _ => {
                let (a, b) = (self.big(), o.big());
                let mut r = Big::new();
                unsafe { mpz_mul(&mut r.0, &a.0, &b.0) };
                Z::norm(r)
            }
        }
    }
    pub fn gcd(&self, o: &Z) -> Z {
        match (self, o) {
            (S(a), S(b)) => {
                let (mut a, mut b) = (a.unsigned_abs(), b.unsigned_abs());
                while b != 0 {
                    let t = a % b;
                    a = b;
                    b = t;
                }
                Z::from_i128(a as i128)
            }
            (S(1), _) | (_, S(1)) => S(1),
            _ => {
                let (a, b) = (self.big(), o.big());
                let mut r = Big::new();
                unsafe { mpz_gcd(&mut r.0, &a.0, &b.0) };
                Z::norm(r)
            }
        }
    }
    pub fn divexact(&self, o: &Z) -> Z {
        match (self, o) {
            (_, S(1)) => self.clone(),
            (S(a), S(b)) => {
                debug_assert!(a % b == 0);
                S(a / b)
            }
            _ => {
                let (a, b) = (self.big(), o.big());
                let mut r = Big::new();
                unsafe { mpz_divexact(&mut r.0, &a.0, &b.0) };
                Z::norm(r)
            }
        }
    }
    pub fn divisible(&self, o: &Z) -> bool {
        match (self, o) {
            (S(a), S(b)) => *b != 0 && a % b == 0,
            _ => {
                let (a, b) = (self.big(), o.big());
                unsafe { mpz_divisible_p(&a.0, &b.0) != 0 }
            }
        }
    }
    pub fn floor_div(&self, o: &Z) -> Z {
        let (a, b) = (self.big(), o.big());
        let mut r = Big::new();
        unsafe { mpz_fdiv_q(&mut r.0, &a.0, &b.0) };
        Z::norm(r)
    }
    pub fn pow(&self, e: u32) -> Z {
        let a = self.big();
        let mut r = Big::new();
        unsafe { mpz_pow_ui(&mut r.0, &a.0, e as c_ulong) };
        Z::norm(r)
    }
    /// self = r*r exactly?
    pub fn perfect_sqrt(&self) -> Option<Z> {
        if self.sign() < 0 {
            return None;
        }
        let a = self.big();
        let mut r = Big::new();
        let mut rem = Big::new();
        unsafe { mpz_sqrtrem(&mut r.0, &mut rem.0, &a.0) };
        if rem.0.size == 0 {
            Some(Z::norm(r))
        } else {
            None
        }
    }
    /// value = m * 2^e, m in [0.5,1) truncated toward zero
    pub fn to_f64_exp(&self) -> (f64, i64) {
        match self {
            S(0) => (0.0, 0),
            _ => {
                let a = self.big();
                let mut e: c_long = 0;
                let d = unsafe { mpz_get_d_2exp(&mut e, &a.0) };
                (d, e)
            }
        }
    }
    /// enclosing interval
    pub fn to_ival(&self) -> (f64, f64) {
        match self {
            S(v) if v.unsigned_abs() < (1u64 << 53) => (*v as f64, *v as f64),
            _ => {
                let (m, e) = self.to_f64_exp();
                if e > 1000 {
                    return if m > 0.0 {
                        (1e300, f64::INFINITY)
                    } else {
                        (f64::NEG_INFINITY, -1e300)
                    };
                }
                let v = m * 2f64.powi(e as i32);
                // truncated toward zero: true magnitude in [|v|, next_up(|v|)]
                if v >= 0.0 {
                    (v, next_up(v))
                } else {
                    (next_down(v), v)
                }
            }
        }
    }
    pub fn to_i64(&self) -> Option<i64> {
        match self {
            S(v) => Some(*v),
            _ => None,
        }
    }
    pub fn to_dec(&self) -> String {
        match self {
            S(v) => v.to_string(),
            B(b) => unsafe {
                let n = mpz_sizeinbase(&b.0, 10) + 3;
                let mut buf = vec![0u8; n];
                mpz_get_str(buf.as_mut_ptr() as *mut c_char, 10, &b.0);
                let end = buf.iter().position(|c| *c == 0).unwrap();
                String::from_utf8(buf[..end].to_vec()).unwrap()
            },
        }
    }
    pub fn from_dec(s: &str) -> Option<Z> {
        if let Ok(v) = s.parse::<i64>() {
            if v != i64::MIN {
                return Some(S(v));
            }
        }
        let c = std::ffi::CString::new(s).ok()?;
        let mut r = Big::new();
        unsafe {
            if mpz_set_str(&mut r.0, c.as_ptr(), 10) != 0 {
                return None;
            }
        }
        Some(Z::norm(r))
    }
}

pub fn next_up(v: f64) -> f64 {
    if v.is_nan() || v == f64::INFINITY {
        return v;
    }
    let b = v.to_bits();
    let nb = if v == 0.0 {
        1
    } else if v > 0.0 {
        b + 1
    } else {
        b - 1
    };
    f64::from_bits(nb)
}
pub fn next_down(v: f64) -> f64 {
    -next_up(-v)
}

impl PartialEq for Z {
    fn eq(&self, o: &Z) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for Z {}
impl PartialOrd for Z {
    fn partial_cmp(&self, o: &Z) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Z {
    fn cmp(&self, o: &Z) -> Ordering {
        match (self, o) {
            (S(a), S(b)) => a.cmp(b),
            _ => {
                let (a, b) = (self.big(), o.big());
                unsafe { mpz_cmp(&a.0, &b.0).cmp(&0) }
            }
        }
    }
}
impl std::hash::Hash for Z {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        match self {
            S(v) => v.hash(h),
            B(b) => {
                b.0.size.hash(h);
                let n = b.0.size.unsigned_abs() as usize;
                unsafe { std::slice::from_raw_parts(b.0.d, n) }.hash(h);
            }
        }
    }
}
impl std::fmt::Debug for Z {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.to_dec())
    }
}

/// Rational number, den > 0, reduced.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Q {
    pub n: Z,
    pub d: Z,
}
impl Q {
    pub fn new(n: Z, d: Z) -> Q {
        assert!(!d.is_zero());
        let g = n.gcd(&d);
        let (mut n, mut d) = if g.is_one() || g.is_zero() {
            (n, d)
        } else {
            (n.divexact(&g), d.divexact(&g))
        };
        if d.sign() < 0 {
            n = n.neg();
            d = d.neg();
        }
        Q { n, d }
    }
    pub fn int(v: i64) -> Q {
        Q { n: S(v), d: S(1) }
    }
    pub fn add(&self, o: &Q) -> Q {
        Q::new(self.n.mul(&o.d).add(&o.n.mul(&self.d)), self.d.mul(&o.d))
    }
    pub fn sub(&self, o: &Q) -> Q {
        Q::new(self.n.mul(&o.d).sub(&o.n.mul(&self.d)), self.d.mul(&o.d))
    }
    pub fn mul(&self, o: &Q) -> Q {
        Q::new(self.n.mul(&o.n), self.d.mul(&o.d))
    }
    pub fn sign(&self) -> i32 {
        self.n.sign()
    }
    pub fn to_f64(&self) -> f64 {
        let (m, e) = self.n.to_f64_exp();
        let (m2, e2) = self.d.to_f64_exp();
        // correctly rounded enough for hints
        (m / m2) * 2f64.powi((e - e2).clamp(-1070, 1020) as i32)
    }
    /// shortest decimal reading of an f64
    pub fn from_f64_decimal(v: f64) -> Q {
        assert!(v.is_finite());
        let s = format!("{:e}", v);
        let (m, e) = s.split_once('e').unwrap();
        let e: i32 = e.parse().unwrap();
        let neg = m.starts_with('-');
        let m = m.trim_start_matches('-');
        let (ip, fp) = m.split_once('.').unwrap_or((m, ""));
        let digits = format!("{}{}", ip, fp);
        let mut n = Z::from_dec(&digits).unwrap();
        if neg {
            n = n.neg();
        }
        let e = e - fp.len() as i32;
        if e >= 0 {
            Q::new(n.mul(&S(10).pow(e as u32)), S(1))
        } else {
            Q::new(n, S(10).pow((-e) as u32))
        }
    }
    /// exact value of an f64
    pub fn from_f64_exact(v: f64) -> Q {
        assert!(v.is_finite());
        if v == 0.0 {
            return Q::int(0);
        }
        let bits = v.to_bits();
        let exp = ((bits >> 52) & 0x7ff) as i32;
        let man = bits & ((1u64 << 52) - 1);
        let (m, e) = if exp == 0 {
            (man as i64, -1074)
        } else {
            ((man | (1u64 << 52)) as i64, exp - 1075)
        };
        let m = if v < 0.0 { -m } else { m };
        if e >= 0 {
            Q::new(S(m).mul(&S(2).pow(e as u32)), S(1))
        } else {
            Q::new(S(m), S(2).pow((-e) as u32))
        }
    }
    pub fn floor(&self) -> Z {
        self.n.floor_div(&self.d)
    }
}
