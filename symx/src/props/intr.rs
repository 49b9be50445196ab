//! Primitive intersections and the intersects of segments.
use crate::explore::*;
use crate::fam::*;
use crate::geo::*;
use crate::props::seg::*;
use crate::scenario;
use crate::sym::*;
use cavalier_contours::core::math::*;
use cavalier_contours::polyline::*;

fn pv<T: Dom>(v: Vx<T>) -> PlineVertex<T> {
    PlineVertex::new(v.0, v.1, v.2)
}
fn lerp<T: Dom>(a: P2<T>, b: P2<T>, t: T) -> P2<T> {
    (a.0 + (b.0 - a.0) * t, a.1 + (b.1 - a.1) * t)
}
/// p lies exactly on the segment (which may be a point)
pub fn hit<T: Dom>(a: Vx<T>, b: Vx<T>, p: P2<T>) -> F<T> {
    let f = on_seg(a, b, p);
    if is_line(a) {
        let q = sub(p, xy(a));
        let c = sub(xy(b), xy(a));
        return F::and(vec![f, F::le(dot(q, q), dot(c, c) + T::zero_tol())]);
    }
    f
}
fn between01<T: Dom>(t: T, e: T) -> F<T> {
    F::and(vec![F::le(-e, t), F::le(t, T::i(1) + e)])
}

/// what a result covers
pub struct Cover<T> {
    pub pts: Vec<P2<T>>,
    pub over: Option<(P2<T>, P2<T>)>,
}
impl<T: Dom> Cover<T> {
    /// p, a common point of both segments, is covered (u: the second segment)
    pub fn has(&self, u: (Vx<T>, Vx<T>), p: P2<T>, tol: T) -> F<T> {
        let mut v: Vec<F<T>> = self.pts.iter().map(|q| pnear(*q, p, tol)).collect();
        if let Some((x, y)) = self.over {
            v.push(pnear(x, p, tol));
            v.push(pnear(y, p, tol));
            let z = T::i(0);
            if is_line(u.0) {
                let d = sub(y, x);
                v.push(F::and(vec![F::le(z, dot(sub(p, x), d)), F::le(z, dot(sub(y, p), d))]));
            } else {
                // x -> p -> y in the direction of u about its centre (less than half a turn)
                let c = arc_center(u.0, u.1);
                let (a, m, b) = (sub(x, c), sub(p, c), sub(y, c));
                let f = if u.0 .2 > z {
                    vec![F::le(z, cross(a, m)), F::le(z, cross(m, b))]
                } else {
                    vec![F::le(cross(a, m), z), F::le(cross(m, b), z)]
                };
                v.push(F::and(f));
            }
        }
        F::or(v)
    }
}

scenario! {
    LineLine { v: Fam, u: Fam } |s, p, T| {
        T::ideal(16);
        let n = p.len();
        let t = p[n - 1];
        let tol = T::tol(1e-6);
        let st = T::tol(1e-2);
        let (z, one) = (T::i(0), T::i(1));
        let (v, u) = (s.v.path(p), s.u.path(p));
        let (v1, v2, u1, u2) = (xy(v.v[0]), xy(v.v[1]), xy(u.v[0]), xy(u.v[1]));
        let vu = cross(sub(v2, v1), sub(u2, u1));
        let e = T::zero_tol();
        let mut cov = Cover { pts: vec![], over: None };
        match line_line_intr(v2x(v1), v2x(v2), v2x(u1), v2x(u2), T::d(1e-8)) {
            LineLineIntr::NoIntersect => {
                T::note(1);
                T::check("no intersect of parallel lines or points only", F::near(vu, z, tol));
            }
            LineLineIntr::TrueIntersect { seg1_t, seg2_t } => {
                T::note(2);
                T::check("parameters within both segments", F::and(vec![between01(seg1_t, tol), between01(seg2_t, tol)]));
                let (a, b) = (lerp(v1, v2, seg1_t), lerp(u1, u2, seg2_t));
                T::check("both parameters give one point", pnear(a, b, tol));
                cov.pts.push(a);
            }
            LineLineIntr::FalseIntersect { seg1_t, seg2_t } => {
                T::note(3);
                T::check("a parameter outside its segment", F::and(vec![between01(seg1_t, z), between01(seg2_t, z)]).not());
                let (a, b) = (lerp(v1, v2, seg1_t), lerp(u1, u2, seg2_t));
                T::check("both parameters give one point", pnear(a, b, tol));
            }
            LineLineIntr::Overlapping { seg2_t0, seg2_t1 } => {
                T::note(4);
                T::check("overlap only of parallel lines", F::near(vu, z, tol));
                T::check("overlap ordered", F::lt(seg2_t0, seg2_t1));
                T::check("overlap within the second segment", F::and(vec![F::le(-e, seg2_t0), F::le(seg2_t1, one + e)]));
                let (a, b) = (lerp(u1, u2, seg2_t0), lerp(u1, u2, seg2_t1));
                for q in [a, b] {
                    T::check("overlap ends on the first segment", seg_dist_ge(v.v[0], v.v[1], q, st).not());
                }
                cov.over = Some((a, b));
            }
        }
        let q = lerp(v1, v2, t);
        T::check("every common point is reported", F::implies(hit(u.v[0], u.v[1], q), cov.has((u.v[0], u.v[1]), q, st)));
    }
}
scenario! {
    /// line family, circle: centre and radius (added parameter times rate)
    LineCircle { l: Fam, c: (f64, f64), r: (f64, f64) } |s, p, T| {
        T::ideal(16);
        let tol = T::tol(1e-5);
        let z = T::i(0);
        let l = s.l.path(p);
        let (a, b) = (xy(l.v[0]), xy(l.v[1]));
        let c = (T::d(s.c.0), T::d(s.c.1));
        let mut r = T::d(s.r.0);
        if s.r.1 != 0.0 {
            r = r + T::d(s.r.1) * p[p.len() - 1];
        }
        let res = line_circle_intr(v2x(a), v2x(b), r, v2x(c), T::d(1e-8));
        let d = sub(b, a);
        let l2 = dot(d, d);
        let on = |t: T| F::near(d2(lerp(a, b, t), c), r * r, tol);
        if T::test(F::le(l2, T::zero_tol() * T::zero_tol())) {
            let m = d2(a, c) - r * r;
            match res {
                LineCircleIntr::NoIntersect => T::check("point off the circle", F::eq(m, z).not()),
                LineCircleIntr::TangentIntersect { t0 } => T::check("point on the circle", F::and(vec![on(t0), F::near(t0, z, tol)])),
                _ => T::check("a point meets the circle at most once", F::False),
            }
            return;
        }
        let k = cross(d, sub(c, a));
        let disc = r * r * l2 - k * k;
        match res {
            LineCircleIntr::NoIntersect => {
                T::note(1);
                T::check("line passes the circle", F::lt(disc, z));
            }
            LineCircleIntr::TangentIntersect { t0 } => {
                T::note(2);
                T::check("tangent line", F::near(disc, z, tol));
                T::check("tangent point on the circle", on(t0));
            }
            LineCircleIntr::TwoIntersects { t0, t1 } => {
                T::note(3);
                T::check("crossing line", F::lt(z, disc));
                T::check("points on the circle", F::and(vec![on(t0), on(t1)]));
                T::check("points ordered", F::le(t0, t1));
                // the two parameters are symmetric about the foot of the centre and apart by
                // 2 sqrt(disc) / l2
                let g = (t1 - t0) * l2;
                T::check("two distinct points", F::near(g * g, T::i(4) * disc, T::tol(1e-3)));
            }
        }
    }
}
scenario! {
    CircleCircle { a: (f64, f64, f64), b: (f64, f64, f64), mv: (f64, f64, f64) } |s, p, T| {
        T::ideal(16);
        let tol = T::tol(1e-5);
        let z = T::i(0);
        let t = p[0];
        let (c1, r1) = ((T::d(s.a.0), T::d(s.a.1)), T::d(s.a.2));
        let (c2, r2) = ((T::d(s.b.0) + T::d(s.mv.0) * t, T::d(s.b.1) + T::d(s.mv.1) * t), T::d(s.b.2) + T::d(s.mv.2) * t);
        let m = d2(c1, c2);
        let sp = (r1 + r2) * (r1 + r2) - m;
        let sm = m - (r1 - r2) * (r1 - r2);
        let on = |q: P2<T>| F::and(vec![F::near(d2(q, c1), r1 * r1, tol), F::near(d2(q, c2), r2 * r2, tol)]);
        for swap in [false, true] {
            let r = if swap {
                circle_circle_intr(r2, v2x(c2), r1, v2x(c1), T::d(1e-8))
            } else {
                circle_circle_intr(r1, v2x(c1), r2, v2x(c2), T::d(1e-8))
            };
            match r {
                CircleCircleIntr::NoIntersect => {
                    T::note(1);
                    T::check("circles apart, nested or concentric", F::or(vec![F::lt(sp, z), F::lt(sm, z), F::and(vec![F::eq(m, z), F::eq(sm, z).not()])]));
                }
                CircleCircleIntr::TangentIntersect { point } => {
                    T::note(2);
                    T::check("touching circles", F::or(vec![F::near(sp, z, tol), F::near(sm, z, tol)]));
                    T::check("tangent point on both circles", on(p2(point)));
                }
                CircleCircleIntr::TwoIntersects { point1, point2 } => {
                    T::note(3);
                    T::check("crossing circles", F::and(vec![F::lt(z, sp), F::lt(z, sm)]));
                    let (a, b) = (p2(point1), p2(point2));
                    T::check("points on both circles", F::and(vec![on(a), on(b)]));
                    // mirror images in the line of centres
                    let (v, h) = (sub(c2, c1), T::q(1, 2));
                    let mid = ((a.0 + b.0) * h, (a.1 + b.1) * h);
                    T::check("points mirror in the line of centres", F::and(vec![F::near(cross(v, sub(mid, c1)), z, tol), F::near(dot(v, sub(a, b)), z, tol)]));
                    T::check("two distinct points", F::near(d2(a, b) * m, sp * sm, T::tol(1e-3)));
                }
                CircleCircleIntr::Overlapping => {
                    T::note(4);
                    T::check("same circle", F::and(vec![F::near(m, z, tol), F::near(r1, r2, tol)]));
                }
            }
        }
    }
}

/// one of the two segments
#[derive(Clone)]
pub enum Seg {
    Fam(Fam),
    /// arc of the circle about c of radius r starting at quarter-angle parameter w = w0 + p0 * k
    /// (the angle is 4 atan w), with the given bulge
    On { c: (f64, f64), r: f64, w: (f64, f64), b: f64 },
    Turn { c: (f64, f64), r: f64, u: (f64, f64), b: (f64, f64) },
}
impl Seg {
    pub fn get<T: Dom>(&self, p: &[T]) -> (Vx<T>, Vx<T>) {
        match self {
            Seg::Fam(f) => {
                let q = f.path(p);
                (q.v[0], q.v[1])
            }
            Seg::On { c, r, w, b } => {
                let w = T::d(w.0) + T::d(w.1) * p[0];
                let (q, bb) = (cs4(w), T::d(*b));
                let e = cmul(q, cs4(bb));
                let (cx, cy, r) = (T::d(c.0), T::d(c.1), T::d(*r));
                ((cx + r * q.0, cy + r * q.1, bb), (cx + r * e.0, cy + r * e.1, T::i(0)))
            }
            Seg::Turn { c, r, u, b } => {
                let bb = T::d(b.0) + T::d(b.1) * p[0];
                let q = (T::d(u.0), T::d(u.1));
                let e = cmul(q, cs4(bb));
                let (cx, cy, r) = (T::d(c.0), T::d(c.1), T::d(*r));
                ((cx + r * q.0, cy + r * q.1, bb), (cx + r * e.0, cy + r * e.1, T::i(0)))
            }
        }
    }
}
fn res_pts<T: Dom>(r: PlineSegIntr<T>) -> (u64, Vec<P2<T>>, bool) {
    match r {
        PlineSegIntr::NoIntersect => (1, vec![], false),
        PlineSegIntr::TangentIntersect { point } => (2, vec![p2(point)], false),
        PlineSegIntr::OneIntersect { point } => (3, vec![p2(point)], false),
        PlineSegIntr::TwoIntersects { point1, point2 } => (4, vec![p2(point1), p2(point2)], false),
        PlineSegIntr::OverlappingLines { point1, point2 } => (5, vec![p2(point1), p2(point2)], true),
        PlineSegIntr::OverlappingArcs { point1, point2 } => (6, vec![p2(point1), p2(point2)], true),
    }
}
/// carriers of two segments (not both lines) touch without crossing: zero exactly then
fn tangency<T: Dom>(a: (Vx<T>, Vx<T>), b: (Vx<T>, Vx<T>), tol: T) -> F<T> {
    let (la, lb) = (is_line(a.0), is_line(b.0));
    if la != lb {
        let (l, r) = if la { (a, b) } else { (b, a) };
        let d = sub(xy(l.1), xy(l.0));
        let k = cross(d, sub(arc_center(r.0, r.1), xy(l.0)));
        return F::near(k * k, arc_r2(r.0, r.1) * dot(d, d), tol);
    }
    let m = d2(arc_center(a.0, a.1), arc_center(b.0, b.1));
    let (x, y) = (arc_r2(a.0, a.1), arc_r2(b.0, b.1));
    // (r1 + r2)^2 = m or (r1 - r2)^2 = m: (m - x - y)^2 = 4 x y
    let g = m - x - y;
    F::near(g * g, T::i(4) * x * y, tol)
}
scenario! {
    SegSeg { v: Seg, u: Seg, complete: bool } |s, p, T| {
        T::ideal(16);
        let st = T::tol(1e-2);
        let tol = T::tol(1e-5);
        let z = T::i(0);
        let (v, u) = (s.v.get(p), s.u.get(p));
        let r = pline_seg_intr(pv(v.0), pv(v.1), pv(u.0), pv(u.1), T::d(1e-8));
        let (kind, pts, over) = res_pts(r);
        T::note(kind);
        let cov = if over {
            Cover { pts: vec![], over: Some((pts[0], pts[1])) }
        } else {
            Cover { pts: pts.clone(), over: None }
        };
        if s.complete {
            let q = seg_ptw(v.0, v.1, p[p.len() - 1]);
            T::check("every common point is reported", F::implies(hit(u.0, u.1, q), cov.has(u, q, st)));
            return;
        }
        for q in &pts {
            T::check("points on the first segment", seg_dist_ge(v.0, v.1, *q, st).not());
            T::check("points on the second segment", seg_dist_ge(u.0, u.1, *q, st).not());
        }
        let lines = (is_line(v.0), is_line(u.0));
        match kind {
            4 => T::check("two points apart", pnear(pts[0], pts[1], T::zero_tol()).not()),
            5 => {
                T::check("overlapping lines", F::bool(lines == (true, true)));
                T::check("overlap in the direction of the second segment", F::lt(z, dot(sub(pts[1], pts[0]), sub(xy(u.1), xy(u.0)))));
                T::check("overlap not short of an end", ends(v, u, &pts, tol));
            }
            6 => {
                T::check("overlapping arcs", F::bool(lines == (false, false)));
                if lines == (false, false) {
                    let (c, k) = (arc_center(v.0, v.1), arc_center(u.0, u.1));
                    T::check("overlapping arcs on one circle", F::and(vec![pnear(c, k, tol), F::near(arc_r2(v.0, v.1), arc_r2(u.0, u.1), tol)]));
                    let x = cross(sub(pts[0], k), sub(pts[1], k));
                    // opposite points of a half circle are fine either way
                    T::check("overlap in the direction of the second segment", if u.0.2 > z { F::le(-tol, x) } else { F::le(x, tol) });
                    T::check("overlap not short of an end", ends(v, u, &pts, tol));
                    T::check("overlap not a point", pnear(pts[0], pts[1], T::zero_tol()).not());
                }
            }
            2 => T::check("tangent where the curves touch", tangency(v, u, tol)),
            _ => {}
        }
        // exchanged arguments
        let (_, pt2, over2) = res_pts(pline_seg_intr(pv(u.0), pv(u.1), pv(v.0), pv(v.1), T::d(1e-8)));
        T::check("same kind of result for exchanged segments", F::bool(over2 == over && pts.is_empty() == pt2.is_empty()));
        for (x, y) in [(&pts, &pt2), (&pt2, &pts)] {
            for q in x {
                T::check("same points for exchanged segments", F::or(y.iter().map(|w| pnear(*w, *q, st)).collect()));
            }
        }
    }
}
/// both ends of an overlap are end points of one of the segments
fn ends<T: Dom>(v: (Vx<T>, Vx<T>), u: (Vx<T>, Vx<T>), pts: &[P2<T>], tol: T) -> F<T> {
    let e = [xy(v.0), xy(v.1), xy(u.0), xy(u.1)];
    F::and(pts.iter().map(|q| F::or(e.iter().map(|w| pnear(*q, *w, tol)).collect())).collect())
}

fn ln(a: (f64, f64), b: (f64, f64)) -> Fam {
    open(&[(a.0, a.1, 0.), (b.0, b.1, 0.)])
}
fn arc(a: (f64, f64), b: (f64, f64), k: f64) -> Fam {
    open(&[(a.0, a.1, k), (b.0, b.1, 0.)])
}
fn c08(th: bool) -> Vec<Scen> {
    let mut v: Vec<Scen> = vec![];
    let t01 = || par("t", 0., 1.);
    let mut ll = |name: &str, a: Fam, b: Fam, mut pars: Vec<Par>| {
        pars.push(t01());
        v.push(Box::new(LineLine { name: format!("line-line/{name}"), v: a, u: b, pars }));
    };
    let base = ln((0., 0.), (4., 3.));
    let xy2 = || vec![par("x", -3., 7.), par("y", -3., 7.)];
    ll("end-free", base.clone(), ln((0., 0.), (1., 3.)).mv(0, 0, 1., 0., 0.).mv(0, 1, 0., 1., 0.), xy2());
    ll("start-free", base.clone(), ln((2., -1.), (0., 0.)).mv(1, 0, 1., 0., 0.).mv(1, 1, 0., 1., 0.), xy2());
    ll("moved", base.clone(), ln((0., 0.), (3., -1.)).tr(0, 1., 0.).tr(1, 0., 1.), xy2());
    ll("vertical", ln((1., -2.), (1., 3.)), ln((0., 0.), (3., 1.)).mv(0, 0, 1., 0., 0.).mv(0, 1, 0., 1., 0.), xy2());
    ll("horizontal", ln((-2., 1.), (3., 1.)), ln((0., 0.), (1., 3.)).mv(0, 0, 1., 0., 0.).mv(0, 1, 0., 1., 0.), xy2());
    ll("parallel", base.clone(), ln((0., 0.), (4., 3.)).tr(0, 1., 0.).tr(1, 0., 1.), xy2());
    ll("parallel-rev", base.clone(), ln((6., 4.5), (0., 0.)).tr(0, 1., 0.).tr(1, 0., 1.), xy2());
    for (n, d) in [("collinear", (4., 3.)), ("collinear-v", (0., 5.)), ("collinear-h", (-5., 0.))] {
        ll(n, ln((0., 0.), d), ln((0., 0.), (0., 0.)).mv(0, 0, d.0, d.1, 0.).mv(1, 1, d.0, d.1, 0.), vec![par("x", -1., 2.), par("y", -1., 2.)]);
    }
    ll("point-line", ln((1., 2.), (1., 2.)), ln((0., 0.), (3., 1.)).mv(0, 0, 1., 0., 0.).mv(0, 1, 0., 1., 0.), xy2());
    ll("line-point", ln((0., 0.), (3., 1.)), ln((0., 0.), (0., 0.)).tr(0, 1., 0.).tr(1, 0., 1.), xy2());
    ll("point-point", ln((1., 1.), (1., 1.)), ln((0., 0.), (0., 0.)).tr(0, 1., 0.).tr(1, 0., 1.), xy2());
    if th {
        ll("small", ln((0., 0.), (0.25, 0.125)), ln((0., 0.), (0.125, 0.25)).mv(0, 0, 1., 0., 0.).mv(0, 1, 0., 1., 0.), vec![par("x", -1., 1.), par("y", -1., 1.)]);
        ll("large", ln((-3000., 1000.), (4000., -2000.)), ln((0., 0.), (1000., 3000.)).mv(0, 0, 1000., 0., 0.).mv(0, 1, 0., 1000., 0.), xy2());
    }
    // ---- line and circle
    let mut lc = |name: &str, l: Fam, c: (f64, f64), r: (f64, f64), pars: Vec<Par>| v.push(Box::new(LineCircle { name: format!("line-circle/{name}"), l, c, r, pars }));
    lc("end-free", ln((-4., -1.), (0., 0.)).mv(1, 0, 1., 0., 0.).mv(1, 1, 0., 1., 0.), (0.5, 1.), (2., 0.), vec![par("x", -5., 5.), par("y", -5., 5.)]);
    lc("moved", ln((-4., -1.), (2., 2.)).tr(0, 0., 1.), (0.5, 1.), (2., 0.), vec![par("t", -4., 4.)]);
    lc("moved-h", ln((3., 0.), (-1., 0.)).tr(0, 0., 1.), (0.5, 1.), (2., 0.), vec![par("t", -4., 4.)]);
    lc("moved-v", ln((0., 0.), (0., 5.)).tr(0, 1., 0.), (0.5, 1.), (2., 0.), vec![par("t", -4., 4.)]);
    lc("turned", ln((-1.5, 1.), (4., 0.)).mv(1, 0, 0., 1., 0.), (0.5, 1.), (2., 0.), vec![par("t", -9., 9.)]);
    lc("to-vertical", ln((0., -4.), (0., 4.)).mv(1, 0, 1., 0., 0.), (0.5, 1.), (2., 0.), vec![par("t", -4., 4.)]);
    lc("radius", ln((-4., -1.), (2., 2.)), (0.5, 1.), (0., 1.), vec![par("r", 0.25, 6.)]);
    lc("point", ln((0., 0.), (0., 0.)).tr(0, 1., 0.).tr(1, 0., 1.), (0.5, 1.), (2., 0.), vec![par("x", -4., 4.), par("y", -4., 4.)]);
    // ---- circles
    let mut cc = |name: &str, a: (f64, f64, f64), b: (f64, f64, f64), mv: (f64, f64, f64), lo: f64, hi: f64| v.push(Box::new(CircleCircle { name: format!("circles/{name}"), a, b, mv, pars: vec![par("t", lo, hi)] }));
    cc("along-x", (0., 0., 2.), (0., 0., 1.), (1., 0., 0.), -4., 4.);
    cc("along-y", (0., 1., 2.), (0., 1., 2.), (0., 1., 0.), -5., 5.);
    cc("beside", (0., 0., 2.), (0., 1., 1.5), (1., 0., 0.), -5., 5.);
    cc("radius", (0., 0., 2.), (3., 4., 0.), (0., 0., 1.), 0.25, 9.);
    cc("radius-concentric", (1., 1., 2.), (1., 1., 0.), (0., 0., 1.), 0.25, 9.);
    cc("diagonal", (0., 0., 2.), (0., 0., 3.), (0.6, 0.8, 0.), -6., 6.);
    // ---- segments
    let mut ss = |name: &str, a: Seg, b: Seg, pars: Vec<Par>| {
        v.push(Box::new(SegSeg { name: format!("segs/{name}"), v: a.clone(), u: b.clone(), complete: false, pars: pars.clone() }));
        let mut pars = pars;
        pars.push(t01());
        v.push(Box::new(SegSeg { name: format!("segs-all/{name}"), v: a, u: b, complete: true, pars }));
    };
    let f = |x: Fam| Seg::Fam(x);
    let t = |a: f64, b: f64| vec![par("m", a, b)];
    let arcs: Vec<(&str, Fam, f64)> = vec![
        ("half", arc((-2., 0.), (2., 0.), 1.), 1.),
        ("quarterish", arc((-2., 0.), (2., 0.), -0.5), -0.5),
        ("steep", arc((0., -2.), (1., 2.), 0.75), 0.75),
        ("half-cw", arc((3., 1.), (-1., -2.), -1.), -1.),
    ];
    for (n, a, _) in &arcs {
        ss(&format!("arc-{n}/line-h"), f(a.clone()), f(ln((-3., 0.), (3., 0.)).tr(0, 0., 1.)), t(-3., 3.));
        ss(&format!("arc-{n}/line-v"), f(ln((0., 3.), (0., -3.)).tr(0, 1., 0.)), f(a.clone()), t(-3., 3.));
        ss(&format!("arc-{n}/line-end"), f(a.clone()), f(ln((-3., -3.), (0., -1.)).mv(1, 0, 1., 1., 0.)), t(-3., 4.));
        ss(&format!("arc-{n}/line-from"), f(ln((0., 0.), (3., -3.)).mv(0, 0, 0., 1., 0.)), f(a.clone()), t(-4., 4.));
        // line from an end of the arc, turning
        let e = a.v[1];
        ss(&format!("arc-{n}/line-at"), f(a.clone()), f(open(&[(e.0, e.1, 0.), (e.0, e.1, 0.)]).mv(1, 0, 3., 0., 0.).mv(1, 1, 0., 3., 0.)), vec![par("m", -1., 1.), fixed("k", 1.)]);
        ss(&format!("arc-{n}/line-at2"), f(open(&[(e.0, e.1, 0.), (e.0, e.1, 0.)]).mv(1, 0, 3., 0., 0.).mv(1, 1, 0., 3., 0.)), f(a.clone()), vec![fixed("k", -1.), par("m", -1., 1.)]);
    }
    for (i, (n, a, _)) in arcs.iter().enumerate() {
        for (j, (m, b, _)) in arcs.iter().enumerate() {
            if !th && (i + 2 * j) % 3 == 2 {
                continue;
            }
            ss(&format!("arc-{n}/arc-{m}-x"), f(a.clone()), f(b.clone().tr(0, 1., 0.)), t(-5., 5.));
            if th || (i + j) % 2 == 0 {
                ss(&format!("arc-{n}/arc-{m}-y"), f(a.clone()), f(b.clone().tr(0, 0., 1.)), t(-5., 5.));
            }
        }
    }
    // arcs of one circle
    let one = |b: f64, w: (f64, f64)| Seg::On { c: (0.5, -0.25), r: 2., w, b };
    for (n, b1, b2) in [("ccw-ccw", 0.5, 0.25), ("ccw-cw", 0.5, -0.25), ("cw-ccw", -0.5, 0.75), ("cw-cw", -0.75, -0.5), ("half-half", 1., 1.), ("half-half-rev", 1., -1.), ("half-cw-part", -1., 0.5), ("same-size", 0.5, 0.5), ("same-size-rev", 0.5, -0.5)] {
        ss(&format!("one-circle/{n}"), one(b1, (0., 0.)), one(b2, (0., 1.)), t(-1., 1.));
        if th {
            ss(&format!("one-circle/{n}-off"), one(b1, (0.25, 0.)), one(b2, (0., 1.)), t(-1., 1.));
        }
        // growing second arc
        let sg = if b2 > 0. { 1. } else { -1. };
        let tn = Seg::Turn { c: (0.5, -0.25), r: 2., u: (1., 0.), b: (0., sg) };
        ss(&format!("one-circle-grow/{n}"), one(b1, (0.25, 0.)), tn, vec![par("m", 0.05, 1.)]);
    }
    v
}
pub fn props() -> Vec<crate::props::Prop> {
    vec![crate::props::Prop {
        id: "C08",
        functions: &["line_line_intr", "line_circle_intr", "circle_circle_intr", "pline_seg_intr", "parametric_from_point", "point_from_parametric", "point_within_arc_sweep", "angle_is_within_sweep", "delta_angle", "normalize_radians", "seg_arc_radius_and_center"],
        bounds: "line pairs with a free end point or free translation (two real parameters) and every position t on the first one; line and circle, and two circles, with one moving end, line, centre or radius; segment pairs of fixed shape (lines, 4 arc shapes, arcs of one circle) with one translation, end point, start angle or bulge parameter and every position t on the first one; position tolerance 1e-8",
        assumptions: &["compared quantities are equal or differ by at least 16 times the tolerance"],
        quick_budget: 100,
        scens: c08,
        findings: crate::props::no_scens,
    }]
}
