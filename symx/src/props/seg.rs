//! Single segments and primitive intersections.
use crate::explore::*;
use crate::fam::*;
use crate::geo::*;
use crate::props::path::in_box;
use crate::scenario;
use crate::sym::*;
use cavalier_contours::core::math::*;
use cavalier_contours::polyline::*;

/// where a segment comes from
#[derive(Clone)]
pub enum Src {
    /// two-vertex family
    Fam(Fam),
    /// arc of radius r about (cx, cy) starting in direction (ux, uy) (a unit vector); its bulge
    /// is the first parameter (negated for clockwise)
    Circ { c: (f64, f64), r: f64, u: (f64, f64), ccw: bool },
    /// the same with the start direction turned by q quarter turns and 2 atan(s), s the first
    /// parameter and the bulge the second
    Any { c: (f64, f64), r: f64, q: u32, ccw: bool },
    /// chord from `at` of length k (1 + s^2) at angle 2 atan(s) plus q quarter turns
    Pyth { at: (f64, f64), q: u32, b: f64 },
}
impl Src {
    pub fn get<T: Dom>(&self, p: &[T]) -> (Vx<T>, Vx<T>) {
        match self {
            Src::Fam(f) => {
                let q = f.path(p);
                (q.v[0], q.v[1])
            }
            Src::Pyth { at, q, b } => {
                let (x, y) = (T::d(at.0), T::d(at.1));
                let (s, k) = (p[0], p[1]);
                let mut d = (k * (T::i(1) - s * s), k * T::i(2) * s);
                for _ in 0..*q {
                    d = (-d.1, d.0);
                }
                ((x, y, T::d(*b)), (x + d.0, y + d.1, T::i(0)))
            }
            Src::Any { c, r, q, ccw } => {
                let b = if *ccw { p[1] } else { -p[1] };
                let mut v0 = cs2(p[0]);
                for _ in 0..*q {
                    v0 = (-v0.1, v0.0);
                }
                let v0 = (v0.0 * T::d(*r), v0.1 * T::d(*r));
                let v1 = cmul(v0, cs4(b));
                let (cx, cy) = (T::d(c.0), T::d(c.1));
                ((v0.0 + cx, v0.1 + cy, b), (v1.0 + cx, v1.1 + cy, T::i(0)))
            }
            Src::Circ { c, r, u, ccw } => {
                let b = if *ccw { p[0] } else { -p[0] };
                let v0 = (T::d(u.0) * T::d(*r), T::d(u.1) * T::d(*r));
                let v1 = cmul(v0, cs4(b));
                let (cx, cy) = (T::d(c.0), T::d(c.1));
                ((v0.0 + cx, v0.1 + cy, b), (v1.0 + cx, v1.1 + cy, T::i(0)))
            }
        }
    }
}
fn pv<T: Dom>(v: Vx<T>) -> PlineVertex<T> {
    PlineVertex::new(v.0, v.1, v.2)
}
fn vx<T: Dom>(v: PlineVertex<T>) -> Vx<T> {
    (v.x, v.y, v.bulge)
}

scenario! {
    /// segment functions against the definition; last parameter is the position on the segment
    SegGeom { src: Src, what: &'static str } |s, p, T| {
        T::ideal(16);
        let (a, b) = s.src.get(p);
        let (v1, v2) = (pv(a), pv(b));
        let tol = T::tol(1e-6);
        let t = p[p.len() - 1];
        match s.what {
            "radius" => {
                let (r, c) = seg_arc_radius_and_center(v1, v2);
                let cc = p2(c);
                T::check("radius positive", F::lt(T::i(0), r));
                T::check("start on circle", F::near(d2(xy(a), cc), r * r, tol));
                T::check("end on circle", F::near(d2(xy(b), cc), r * r, tol));
                // the arc's mid point (sagitta = bulge * half chord, right of the chord)
                let ch = sub(xy(b), xy(a));
                let h = T::q(1, 2);
                let m = (
                    (a.0 + b.0) * h + a.2 * ch.1 * h,
                    (a.1 + b.1) * h - a.2 * ch.0 * h,
                );
                T::check("arc mid point on circle", F::near(d2(m, cc), r * r, tol));
            }
            "midpoint" => {
                let m = p2(seg_midpoint(v1, v2));
                let ch = sub(xy(b), xy(a));
                let h = T::q(1, 2);
                let w = (
                    (a.0 + b.0) * h + a.2 * ch.1 * h,
                    (a.1 + b.1) * h - a.2 * ch.0 * h,
                );
                T::check("midpoint", pnear(m, w, tol));
            }
            "tangent" => {
                let q = seg_ptw(a, b, t);
                let tv = p2(seg_tangent_vector(v1, v2, v2x(q)));
                if is_line(a) {
                    let ch = sub(xy(b), xy(a));
                    T::check("parallel", F::near(cross(tv, ch), T::i(0), tol));
                    T::check("direction", F::lt(T::i(0), dot(tv, ch)));
                } else {
                    let c = arc_center(a, b);
                    let rad = sub(q, c);
                    T::check("perpendicular to radius", F::near(dot(tv, rad), T::i(0), tol));
                    let cr = cross(rad, tv);
                    if a.2 > T::i(0) {
                        T::check("direction", F::lt(T::i(0), cr));
                    } else {
                        T::check("direction", F::lt(cr, T::i(0)));
                    }
                }
            }
            "split" => {
                let tol = T::tol(5e-5);
                let q = seg_ptw(a, b, t);
                let r = seg_split_at_point(v1, v2, v2x(q), T::d(1e-8));
                let (u, w) = (vx(r.updated_start), vx(r.split_vertex));
                T::check("start unchanged", pnear(xy(u), xy(a), tol));
                T::check("split at point", pnear(xy(w), q, tol));
                if is_line(a) {
                    T::check("lines", F::and(vec![F::eq(u.2, T::i(0)), F::eq(w.2, T::i(0))]));
                } else {
                    // bulge = tan(angle / 4): angles subtract
                    let w1 = a.2 * t;
                    let w2 = (a.2 - w1) / (T::i(1) + a.2 * w1);
                    T::check("bulge of first part", F::near(u.2, w1, tol));
                    T::check("bulge of second part", F::near(w.2, w2, tol));
                }
            }
            "length" => {
                let l = seg_length(v1, v2);
                if is_line(a) {
                    T::check("length", F::near(l * l, d2(xy(a), xy(b)), tol));
                    T::check("length positive", F::le(T::i(0), l));
                } else {
                    // l / r is the sweep angle 4 atan(|bulge|)
                    let (r, _) = seg_arc_radius_and_center(v1, v2);
                    T::check("radius", F::near(r * r, arc_r2(a, b), tol));
                    let an = l / r;
                    let (sn, cs) = an.sin_cos();
                    let w = cs4(a.2.abs());
                    T::check("length", pnear((cs, sn), w, tol));
                    T::check("length range", F::and(vec![F::le(T::i(0), an), F::le(an, T::d(3.1416))]));
                }
            }
            "bbox" => {
                let q = seg_pt(a, b, t);
                let bx = seg_bounding_box(v1, v2);
                let ap = seg_fast_approx_bounding_box(v1, v2);
                for (n, x) in [("precise box", bx), ("approximate box", ap)] {
                    T::check(&format!("{n} contains the segment"), F::and(vec![
                        F::le(x.min_x, q.0 + tol),
                        F::le(x.min_y, q.1 + tol),
                        F::le(q.0, x.max_x + tol),
                        F::le(q.1, x.max_y + tol),
                    ]));
                }
            }
            "bbox-ends" => {
                // a box contains an arc if it contains its ends and extreme points
                let bx = seg_bounding_box(v1, v2);
                let ap = seg_fast_approx_bounding_box(v1, v2);
                let c = arc_center(a, b);
                let r = arc_r2(a, b).sqrt();
                let e = [(c.0 - r, c.1), (c.0, c.1 - r), (c.0 + r, c.1), (c.0, c.1 + r)];
                for (n, x) in [("precise box", bx), ("approximate box", ap)] {
                    let x = (x.min_x, x.min_y, x.max_x, x.max_y);
                    T::check(&format!("{n} contains the ends"), F::and(vec![in_box(x, xy(a), tol), in_box(x, xy(b), tol)]));
                    for q in e {
                        T::check(&format!("{n} contains the extreme points"), F::or(vec![in_cone(a, b, q).not(), in_box(x, q, tol)]));
                    }
                }
            }
            "bbox-tight" => {
                let bx = seg_bounding_box(v1, v2);
                T::check("box sides touch the segment", box_touch(&Path { v: vec![a, b], closed: false }, (bx.min_x, bx.min_y, bx.max_x, bx.max_y), tol));
            }
            "closest" => {
                // query point: parameters n-2, n-1
                let n = p.len();
                let q = (p[n - 2], p[n - 1]);
                if !is_line(a) {
                    T::require(F::le(T::d(0.01), d2(q, arc_center(a, b))));
                }
                let r = p2(seg_closest_point(v1, v2, v2x(q), T::d(1e-8)));
                let st = T::tol(1e-2);
                T::check("closest point on the segment", seg_dist_ge(a, b, r, st).not());
                let d = d2(q, r);
                // nothing nearer: distance to segment >= sqrt(d) - tol
                let l = d.sqrt() - st;
                T::check("no nearer point", F::or(vec![F::le(l, T::i(0)), seg_dist_ge(a, b, q, l)]));
            }
            _ => unreachable!(),
        }
    }
}
pub fn v2x<T: Dom>(q: P2<T>) -> Vector2<T> {
    Vector2::new(q.0, q.1)
}
/// each side of the box is touched by an end point or by an arc extreme of the path
pub fn box_touch<T: Dom>(path: &Path<T>, bx: (T, T, T, T), tol: T) -> F<T> {
    let mut sides: Vec<Vec<F<T>>> = vec![vec![], vec![], vec![], vec![]];
    for v in &path.v {
        sides[0].push(F::near(bx.0, v.0, tol));
        sides[1].push(F::near(bx.1, v.1, tol));
        sides[2].push(F::near(bx.2, v.0, tol));
        sides[3].push(F::near(bx.3, v.1, tol));
    }
    for (a, b) in path.segs() {
        if is_line(a) {
            continue;
        }
        let c = arc_center(a, b);
        let r = arc_r2(a, b).sqrt();
        let e = [(c.0 - r, c.1), (c.0, c.1 - r), (c.0 + r, c.1), (c.0, c.1 + r)];
        for k in 0..4 {
            let val = [e[0].0, e[1].1, e[2].0, e[3].1][k];
            let side = [bx.0, bx.1, bx.2, bx.3][k];
            sides[k].push(F::and(vec![F::near(side, val, tol), in_cone(a, b, e[k])]));
        }
    }
    F::and(sides.into_iter().map(F::or).collect())
}

fn sg(name: &str, what: &'static str, src: Src, pars: Vec<Par>) -> Scen {
    Box::new(SegGeom { name: format!("{what}/{name}"), what, src, pars })
}
fn with(mut v: Vec<Par>, n: &'static str, lo: f64, hi: f64) -> Vec<Par> {
    v.push(par(n, lo, hi));
    v
}
/// segments with symbolic shape, by number of shape parameters
pub fn seg_sources(th: bool) -> Vec<(String, Src, Vec<Par>)> {
    let mut v = vec![];
    for ccw in [true, false] {
        let s = if ccw { "ccw" } else { "cw" };
        let sg = if ccw { 1. } else { -1. };
        let dirs: &[(f64, f64)] = if th { &[(1., 0.), (0.6, 0.8), (0., 1.), (-0.8, 0.6), (-1., 0.), (-0.6, -0.8), (0., -1.), (0.8, -0.6)] } else { &[(1., 0.), (0.6, 0.8), (-0.8, 0.6), (0., -1.)] };
        for (k, u) in dirs.iter().enumerate() {
            v.push((format!("circ{k}-{s}"), Src::Circ { c: (0.5, -0.25), r: 2.0, u: *u, ccw }, vec![par("b", 0.05, 1.)]));
        }
        // fixed chord, symbolic bulge
        v.push((format!("chord-{s}"), Src::Fam(open(&[(0., 0., 0.), (3., 4., 0.)]).mv(0, 0, 0., 0., sg)), vec![par("b", 0.05, 1.)]));
        // fixed bulge, symbolic chord: scale k, direction 2 atan(s) + quarter turns
        for (i, b) in (if th { vec![0.25, 0.5, 0.75, 1.0] } else { vec![0.5, 1.0] }).into_iter().enumerate() {
            v.push((format!("end-{b}-{s}"), Src::Pyth { at: (0.5, -0.25), q: i as u32, b: sg * b }, vec![par("s", -0.98, 0.98), par("k", 0.5, 3.)]));
        }
    }
    v.push(("line".into(), Src::Fam(open(&[(0., 0., 0.), (0., 0., 0.)]).mv(1, 0, 1., 0., 0.).mv(1, 1, 0., 1., 0.)), vec![par("x", 0.5, 4.), par("y", -4., 4.)]));
    v.push(("line-dir".into(), Src::Pyth { at: (0.5, -0.25), q: 0, b: 0. }, vec![par("s", -3., 3.), par("k", 0.5, 3.)]));
    v
}
fn c14(th: bool) -> Vec<Scen> {
    let mut v = vec![];
    for (n, s, q) in seg_sources(th) {
        if !n.starts_with("line") {
            v.push(sg(&n, "radius", s.clone(), q.clone()));
        }
        v.push(sg(&n, "midpoint", s.clone(), q.clone()));
        v.push(sg(&n, "length", s.clone(), q.clone()));
        v.push(sg(&n, "tangent", s.clone(), with(q.clone(), "t", 0., 1.)));
    }
    for q in 0..4 {
        for ccw in [true, false] {
            let src = Src::Any { c: (0.5, -0.25), r: 2.0, q, ccw };
            let n = format!("any{q}-{ccw}");
            for what in ["radius", "midpoint", "length", "tangent"] {
                if !th && q > 0 && what != "radius" && what != "tangent" && (q > 1 || what != "length") {
                    continue;
                }
                let mut pars = vec![par("s", -0.42, 0.42), par("b", 0.05, 1.)];
                if what == "tangent" {
                    pars.push(fixed("t", 0.75));
                }
                v.push(sg(&n, what, src.clone(), pars));
            }
        }
    }
    for (n, s, q) in seg_fixed(th) {
        v.push(sg(&n, "split", s.clone(), with(q.clone(), "t", 0., 1.)));
        v.push(sg(&n, "closest", s.clone(), with(with(q.clone(), "px", -6., 6.), "py", -6., 6.)));
    }
    for (n, s, q) in seg_sources(th) {
        if q.len() == 1 {
            for t in if th { vec![0., 0.125, 0.25, 0.5, 0.75, 1.] } else { vec![0., 0.25, 0.5, 1.] } {
                let mut q = q.clone();
                q.push(fixed("t", t));
                v.push(sg(&format!("{n}-at-{t}"), "split", s.clone(), q));
            }
            // along lines parallel to the axes
            for (x, y) in if th { vec![(1.5, 1.75), (-3., 0.5), (0.5, -4.), (4., 3.)] } else { vec![(1.5, 1.75), (-3., 0.5)] } {
                let mut q1 = with(q.clone(), "px", -6., 6.);
                q1.push(fixed("py", y));
                v.push(sg(&format!("{n}-y{y}"), "closest", s.clone(), q1));
                let mut q1 = q.clone();
                q1.push(fixed("px", x));
                v.push(sg(&format!("{n}-x{x}"), "closest", s.clone(), with(q1, "py", -6., 6.)));
            }
        }
    }
    v
}
/// segments of fixed shape
pub fn seg_fixed(th: bool) -> Vec<(String, Src, Vec<Par>)> {
    let mut v = vec![];
    let n = if th { 16 } else { 6 };
    let ch = [(4., 0.), (3., 4.), (0., 5.), (-2., 1.), (-6., 0.), (-1., -3.), (0., -2.), (5., -5.)];
    let bu = [1., -0.5, 0.25, -1., 0.75, -0.125, 0.5, -0.75];
    for k in 0..n {
        let (c, b) = (ch[k % 8], bu[(k * 3 + k / 8) % 8]);
        v.push((format!("fix{k}"), Src::Fam(open(&[(0.5, -0.25, b), (0.5 + c.0, c.1 - 0.25, 0.)])), vec![]));
    }
    v.push(("fixline".into(), Src::Fam(open(&[(0.5, -0.25, 0.), (3.5, 3.75, 0.)])), vec![]));
    v.push(("fixline-v".into(), Src::Fam(open(&[(0.5, 3., 0.), (0.5, -3., 0.)])), vec![]));
    v
}
fn c13(th: bool) -> Vec<Scen> {
    let mut v = vec![];
    for (n, s, q) in seg_sources(th) {
        v.push(sg(&n, "bbox", s.clone(), with(q.clone(), "t", 0., 1.)));
        v.push(sg(&n, "bbox-tight", s.clone(), q.clone()));
    }
    for (n, s, q) in seg_fixed(th) {
        v.push(sg(&n, "bbox", s.clone(), with(q.clone(), "t", 0., 1.)));
    }
    for q in 0..4 {
        for ccw in [true, false] {
            let src = Src::Any { c: (0.5, -0.25), r: 2.0, q, ccw };
            for (k, (lo, hi)) in [(-0.42, 0.05), (-0.05, 0.42)].into_iter().enumerate() {
                v.push(sg(&format!("any{q}{k}-{ccw}"), "bbox-ends", src.clone(), vec![par("s", lo, hi), par("b", 0.05, 0.95)]));
            }
        }
    }
    v.extend(crate::props::path::c13_paths(th));
    v
}
pub fn props() -> Vec<crate::props::Prop> {
    vec![
        crate::props::Prop {
            id: "C14",
            functions: &["seg_arc_radius_and_center", "seg_split_at_point", "seg_tangent_vector", "seg_closest_point", "seg_length", "seg_midpoint", "point_within_arc_sweep", "delta_angle", "delta_angle_signed", "angle", "bulge_from_angle"],
            bounds: "one segment: lines and arcs in fixed position with a symbolic bulge in [-1,-0.05] or [0.05,1], with a symbolic end point on a line or circle, or with a symbolic chord; query point or split position symbolic (one or two real parameters per scenario)",
            assumptions: &[],
            quick_budget: 120,
            scens: c14,
            findings: crate::props::no_scens,
        },
        crate::props::Prop {
            id: "C13",
            functions: &["arc_seg_bounding_box", "seg_bounding_box", "seg_fast_approx_bounding_box", "extents", "create_aabb_index", "create_approx_aabb_index", "StaticAABB2DIndex::query"],
            bounds: "one segment as for C14 with a symbolic position on it; polylines of at most 8 vertexes with at most one moving vertex, side or bulge; query boxes of side 1 along a line (quick) or anywhere (thorough)",
            assumptions: &[],
            quick_budget: 120,
            scens: c13,
            findings: crate::props::no_scens,
        },
    ]
}
