//! Independent geometric oracles, written from the definitions (not from the library), as
//! quantifier-free formulas over a domain.
use crate::sym::*;
use cavalier_contours::core::math::Vector2;
use cavalier_contours::polyline::*;

/// vertex (x, y, bulge)
pub type Vx<T> = (T, T, T);
pub type P2<T> = (T, T);

#[derive(Clone, Debug)]
pub struct Path<T> {
    pub v: Vec<Vx<T>>,
    pub closed: bool,
}
pub fn path_of<T: Dom, P: PlineSource<Num = T> + ?Sized>(p: &P) -> Path<T> {
    // read through the plain accessor only
    Path {
        v: (0..p.vertex_count())
            .map(|i| {
                let v = p.at(i);
                T::watch(v.x);
                T::watch(v.y);
                T::watch(v.bulge);
                (v.x, v.y, v.bulge)
            })
            .collect(),
        closed: p.is_closed(),
    }
}
pub fn pline_of<T: Dom>(p: &Path<T>) -> Polyline<T> {
    let mut r = if p.closed {
        Polyline::new_closed()
    } else {
        Polyline::new()
    };
    for (x, y, b) in &p.v {
        r.add(*x, *y, *b);
    }
    r
}
impl<T: Dom> Path<T> {
    pub fn segs(&self) -> Vec<(Vx<T>, Vx<T>)> {
        let n = self.v.len();
        if n < 2 {
            return vec![];
        }
        let m = if self.closed { n } else { n - 1 };
        (0..m).map(|i| (self.v[i], self.v[(i + 1) % n])).collect()
    }
}
pub fn v2<T: Dom>(p: P2<T>) -> Vector2<T> {
    Vector2::new(p.0, p.1)
}
pub fn p2<T: Dom>(p: Vector2<T>) -> P2<T> {
    T::watch(p.x);
    T::watch(p.y);
    (p.x, p.y)
}
pub fn xy<T: Dom>(v: Vx<T>) -> P2<T> {
    (v.0, v.1)
}
pub fn sub<T: Dom>(a: P2<T>, b: P2<T>) -> P2<T> {
    (a.0 - b.0, a.1 - b.1)
}
pub fn dot<T: Dom>(a: P2<T>, b: P2<T>) -> T {
    a.0 * b.0 + a.1 * b.1
}
pub fn cross<T: Dom>(a: P2<T>, b: P2<T>) -> T {
    a.0 * b.1 - a.1 * b.0
}
pub fn d2<T: Dom>(a: P2<T>, b: P2<T>) -> T {
    let d = sub(a, b);
    dot(d, d)
}
pub fn is_line<T: Dom>(a: Vx<T>) -> bool {
    // concrete bulges only: the scenario builders never make a bulge that may vanish
    a.2 == T::i(0)
}

/// Point of the segment at rational parameter t: t = 0 is the end, t = 1 the start.
/// Valid for lines and arcs alike (chord-tangent parametrisation), any |bulge| <= 1.
pub fn seg_pt<T: Dom>(a: Vx<T>, b: Vx<T>, t: T) -> P2<T> {
    let c = sub(xy(b), xy(a));
    let one = T::i(1);
    if is_line(a) {
        let k = one - t;
        return (a.0 + c.0 * k, a.1 + c.1 * k);
    }
    let k = a.2;
    let w = k * t;
    let w2 = w * w;
    let den = one + w2;
    let m = (one - t) * (one + k * k * t) / (den * den);
    let co = one - w2;
    let si = (w + w) * m;
    let co = co * m;
    // rotate the chord by -phi (the arc bulges to the right of the chord when bulge > 0)
    (a.0 + co * c.0 + si * c.1, a.1 - si * c.0 + co * c.1)
}

/// (cos, sin) of 2 atan(w)
pub fn cs2<T: Dom>(w: T) -> P2<T> {
    let d = T::i(1) + w * w;
    ((T::i(1) - w * w) / d, T::i(2) * w / d)
}
/// (cos, sin) of 4 atan(w)
pub fn cs4<T: Dom>(w: T) -> P2<T> {
    let w2 = w * w;
    let o = T::i(1) + w2;
    let m = T::i(1) - w2;
    let four = T::i(4);
    ((m * m - four * w2) / (o * o), four * w * m / (o * o))
}
/// complex product
pub fn cmul<T: Dom>(a: P2<T>, b: P2<T>) -> P2<T> {
    (a.0 * b.0 - a.1 * b.1, a.0 * b.1 + a.1 * b.0)
}
/// Point of the segment at quarter-angle parameter t: the sub-arc from the start to the point
/// has bulge t * bulge (lines: the fraction t of the way).
pub fn seg_ptw<T: Dom>(a: Vx<T>, b: Vx<T>, t: T) -> P2<T> {
    if is_line(a) {
        let c = sub(xy(b), xy(a));
        return (a.0 + c.0 * t, a.1 + c.1 * t);
    }
    let c = arc_center(a, b);
    let q = cmul(sub(xy(a), c), cs4(a.2 * t));
    (c.0 + q.0, c.1 + q.1)
}

/// centre of an arc segment
pub fn arc_center<T: Dom>(a: Vx<T>, b: Vx<T>) -> P2<T> {
    let c = sub(xy(b), xy(a));
    let k = (T::i(1) - a.2 * a.2) / (T::i(4) * a.2);
    let h = T::q(1, 2);
    (
        a.0 + c.0 * h - c.1 * k,
        a.1 + c.1 * h + c.0 * k,
    )
}
pub fn arc_r2<T: Dom>(a: Vx<T>, b: Vx<T>) -> T {
    let c2 = d2(xy(a), xy(b));
    let k = (T::i(1) + a.2 * a.2) / (T::i(4) * a.2);
    c2 * k * k
}
/// p lies in the (closed) cone spanned by the arc as seen from its centre (|bulge| <= 1)
pub fn in_cone<T: Dom>(a: Vx<T>, b: Vx<T>, p: P2<T>) -> F<T> {
    let c = arc_center(a, b);
    let q = sub(p, c);
    let s = cross(sub(xy(a), c), q);
    let e = cross(q, sub(xy(b), c));
    let z = T::i(0);
    if a.2 > z {
        F::and(vec![F::le(z, s), F::le(z, e)])
    } else {
        F::and(vec![F::le(s, z), F::le(e, z)])
    }
}
/// distance from p to the segment is at least d (d >= 0)
pub fn seg_dist_ge<T: Dom>(a: Vx<T>, b: Vx<T>, p: P2<T>, d: T) -> F<T> {
    let z = T::i(0);
    let dd = d * d;
    if is_line(a) {
        let c = sub(xy(b), xy(a));
        let q = sub(p, xy(a));
        let t = dot(q, c);
        let l2 = dot(c, c);
        let x = cross(c, q);
        let (da, db, dm) = (F::le(dd, d2(p, xy(a))), F::le(dd, d2(p, xy(b))), F::le(dd * l2, x * x));
        // by region, plus two implied clauses that help interval evaluation
        return F::and(vec![
            F::or(vec![F::lt(z, t), da.clone()]),
            F::or(vec![F::lt(t, l2), db.clone()]),
            F::or(vec![F::le(t, z), F::le(l2, t), dm.clone()]),
            F::or(vec![da, dm.clone()]),
            F::or(vec![db, dm]),
        ]);
    }
    let c = arc_center(a, b);
    let r2 = arc_r2(a, b);
    let r = r2.sqrt();
    let m = d2(p, c);
    let cone = in_cone(a, b, p);
    let far = F::le((r + d) * (r + d), m);
    let near = F::and(vec![F::le(d, r), F::le(m, (r - d) * (r - d))]);
    F::ite(
        cone,
        F::or(vec![far, near]),
        F::and(vec![F::le(dd, d2(p, xy(a))), F::le(dd, d2(p, xy(b)))]),
    )
}
pub fn dist_ge<T: Dom>(pl: &Path<T>, p: P2<T>, d: T) -> F<T> {
    if pl.v.len() == 1 {
        return F::le(d * d, d2(p, xy(pl.v[0])));
    }
    F::and(
        pl.segs()
            .into_iter()
            .map(|(a, b)| seg_dist_ge(a, b, p, d))
            .collect(),
    )
}
/// distance from p to the path is less than d
pub fn dist_lt<T: Dom>(pl: &Path<T>, p: P2<T>, d: T) -> F<T> {
    dist_ge(pl, p, d).not()
}
pub fn dist_lt_any<T: Dom>(pls: &[Path<T>], p: P2<T>, d: T) -> F<T> {
    F::or(pls.iter().map(|q| dist_lt(q, p, d)).collect())
}
pub fn dist_ge_all<T: Dom>(pls: &[Path<T>], p: P2<T>, d: T) -> F<T> {
    F::and(pls.iter().map(|q| dist_ge(q, p, d)).collect())
}

/// p is inside the region between an arc and its chord; on the chord itself, ties break like
/// in edge_crossing (the chord counts to the side a small rightward-then-upward step leads to)
pub fn in_lens<T: Dom>(a: Vx<T>, b: Vx<T>, p: P2<T>) -> F<T> {
    let z = T::i(0);
    let c = arc_center(a, b);
    let ch = sub(xy(b), xy(a));
    let s = cross(ch, sub(p, xy(a)));
    let inc = F::lt(d2(p, c), arc_r2(a, b));
    // strictly right of the chord, or on it with the step leading right
    let right = F::or(vec![
        F::lt(s, z),
        F::and(vec![F::eq(s, z), F::or(vec![F::lt(z, ch.1), F::and(vec![F::eq(ch.1, z), F::lt(ch.0, z)])])]),
    ]);
    if a.2 > z {
        // arc lies right of the chord
        F::and(vec![inc, right])
    } else {
        F::and(vec![inc, right.not()])
    }
}
fn edge_crossing<T: Dom>(a: P2<T>, b: P2<T>, p: P2<T>) -> F<T> {
    // half-open crossing of the rightward horizontal ray
    let z = T::i(0);
    let s = cross(sub(b, a), sub(p, a));
    F::or(vec![
        F::and(vec![F::le(a.1, p.1), F::lt(p.1, b.1), F::lt(z, s)]),
        F::and(vec![F::le(b.1, p.1), F::lt(p.1, a.1), F::lt(s, z)]),
    ])
}
/// odd number of boundary crossings: inside, for a simple closed path (p off the boundary)
pub fn inside<T: Dom>(pl: &Path<T>, p: P2<T>) -> F<T> {
    let mut x = vec![];
    for (a, b) in pl.segs() {
        x.push(edge_crossing(xy(a), xy(b), p));
        if !is_line(a) {
            x.push(in_lens(a, b, p));
        }
    }
    F::Xor(x)
}
/// signed area enclosed (shoelace plus circular segments; counter-clockwise positive)
pub fn area<T: Dom>(pl: &Path<T>) -> T {
    let mut s = T::i(0);
    for (a, b) in pl.segs() {
        s = s + cross(xy(a), xy(b)) / T::i(2);
        if !is_line(a) {
            // theta = 4 atan(bulge); circular segment area r^2 (theta - sin theta) / 2
            let th = T::i(4) * a.2.atan();
            let o = T::i(1) + a.2 * a.2;
            // sin(4 atan b) = 4 b (1 - b^2) / (1 + b^2)^2
            let sn = T::i(4) * a.2 * (T::i(1) - a.2 * a.2) / (o * o);
            s = s + arc_r2(a, b) * (th - sn) / T::i(2);
        }
    }
    s
}
pub fn length<T: Dom>(pl: &Path<T>) -> T {
    let mut s = T::i(0);
    for (a, b) in pl.segs() {
        if is_line(a) {
            s = s + d2(xy(a), xy(b)).sqrt();
        } else {
            let th = T::i(4) * a.2.abs().atan();
            s = s + arc_r2(a, b).sqrt() * th;
        }
    }
    s
}
/// |a - b| <= tol component-wise
pub fn pnear<T: Dom>(a: P2<T>, b: P2<T>, tol: T) -> F<T> {
    F::and(vec![F::near(a.0, b.0, tol), F::near(a.1, b.1, tol)])
}

/// p lies on the segment (exactly, up to the domain's slack)
pub fn on_seg<T: Dom>(a: Vx<T>, b: Vx<T>, p: P2<T>) -> F<T> {
    let z = T::i(0);
    let e = T::zero_tol();
    if is_line(a) {
        let c = sub(xy(b), xy(a));
        let q = sub(p, xy(a));
        let t = dot(q, c);
        return F::and(vec![
            F::eq(cross(c, q), z),
            F::le(-e, t),
            F::le(t, dot(c, c) + e),
        ]);
    }
    let c = arc_center(a, b);
    F::or(vec![
        F::and(vec![F::eq(d2(p, c), arc_r2(a, b)), in_cone(a, b, p)]),
        pnear(p, xy(a), e),
        pnear(p, xy(b), e),
    ])
}
/// General position up to exact coincidence: every vertex of one path is either exactly on the
/// other path's segment or at least d away from it; every line/arc and arc/arc pair of carriers
/// is either exactly tangent or misses tangency by at least d.
pub fn clear_pair<T: Dom>(sa: (Vx<T>, Vx<T>), sb: (Vx<T>, Vx<T>), d: T) -> Vec<F<T>> {
    let mut out = vec![];
    let d = if T::SYMBOLIC { d } else { d * T::q(1, 2) };
    for (s, t) in [(sa, sb), (sb, sa)] {
        for p in [xy(s.0), xy(s.1)] {
            out.push(F::or(vec![
                on_seg(t.0, t.1, p),
                seg_dist_ge(t.0, t.1, p, d),
            ]));
        }
    }
    let (la, lb) = (is_line(sa.0), is_line(sb.0));
    if la != lb {
        let (l, r) = if la { (sa, sb) } else { (sb, sa) };
        let c = arc_center(r.0, r.1);
        let rad = arc_r2(r.0, r.1).sqrt();
        let v = sub(xy(l.1), xy(l.0));
        let k = cross(v, sub(c, xy(l.0)));
        let k2 = k * k;
        let l2 = dot(v, v);
        let hi = (rad + d) * (rad + d) * l2;
        let lo = (rad - d) * (rad - d) * l2;
        out.push(F::or(vec![
            F::eq(k2, rad * rad * l2),
            F::le(hi, k2),
            F::le(k2, lo),
        ]));
    } else if !la {
        let (ca, cb) = (arc_center(sa.0, sa.1), arc_center(sb.0, sb.1));
        let (ra, rb) = (arc_r2(sa.0, sa.1).sqrt(), arc_r2(sb.0, sb.1).sqrt());
        let m = d2(ca, cb);
        let s = ra + rb;
        out.push(F::or(vec![
            F::eq(m, s * s),
            F::le((s + d) * (s + d), m),
            F::le(m, (s - d) * (s - d)),
        ]));
        let s = (ra - rb).abs();
        let mut o = vec![F::eq(m, s * s), F::le((s + d) * (s + d), m)];
        if s > d {
            o.push(F::le(m, (s - d) * (s - d)));
        }
        out.push(F::or(o));
    }
    out
}
pub fn clear<T: Dom>(a: &Path<T>, b: &Path<T>, d: T) -> F<T> {
    let mut out = vec![];
    for sa in a.segs() {
        for sb in b.segs() {
            out.extend(clear_pair(sa, sb, d));
        }
    }
    F::and(out)
}
