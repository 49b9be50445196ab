//! Boolean operations between two closed polylines.
use crate::explore::*;
use crate::fam::*;
use crate::geo::*;
use crate::props::offset::{left_normal, no_cross, seg_points};
use crate::scenario;
use crate::sym::*;
use crate::z::*;
use cavalier_contours::polyline::*;

pub const OPS: [BooleanOp; 4] = [BooleanOp::Or, BooleanOp::And, BooleanOp::Not, BooleanOp::Xor];

pub fn want<T: Dom>(op: BooleanOp, a: F<T>, b: F<T>) -> F<T> {
    match op {
        BooleanOp::Or => F::or(vec![a, b]),
        BooleanOp::And => F::and(vec![a, b]),
        BooleanOp::Not => F::and(vec![a, b.not()]),
        BooleanOp::Xor => F::xor(a, b),
    }
}
fn opname(op: BooleanOp) -> &'static str {
    match op {
        BooleanOp::Or => "or",
        BooleanOp::And => "and",
        BooleanOp::Not => "not",
        BooleanOp::Xor => "xor",
    }
}
pub fn result_paths<T: Dom>(r: &BooleanResult<Polyline<T>>) -> (Vec<Path<T>>, Vec<Path<T>>) {
    (
        r.pos_plines.iter().map(|q| path_of(&q.pline)).collect(),
        r.neg_plines.iter().map(|q| path_of(&q.pline)).collect(),
    )
}

/// For every placement and every probe point away from both input boundaries: the point is in
/// the result region exactly when set logic says so.
pub struct Probe {
    pub name: String,
    pub a: Fam,
    pub b: Fam,
    pub pars: Vec<Par>,
    /// index of the first probe parameter (x, y)
    pub probe: usize,
    pub ops: Vec<BooleanOp>,
}
impl Scenario for Probe {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn inputs(&self) -> Vec<(&'static str, Q, Q)> {
        inputs(&self.pars)
    }
    fn run<T: Dom>(&self, p: &[T]) {
        let p = &fill(&self.pars, p);
        let (a, b) = (self.a.path(p), self.b.path(p));
        T::require(clear(&a, &b, T::d(1e-3)));
        let (pa, pb) = (pline_of(&a), pline_of(&b));
        let q = (p[self.probe], p[self.probe + 1]);
        let eps = T::d(1e-3);
        for op in &self.ops {
            let r = pa.boolean(&pb, *op);
            let (pos, neg) = result_paths(&r);
            T::note(pos.len() as u64 * 16 + neg.len() as u64);
            let mut x: Vec<F<T>> = pos.iter().map(|c| inside(c, q)).collect();
            // negative regions lie within positive ones: membership parity flips
            x.extend(neg.iter().map(|c| inside(c, q)));
            let got = F::Xor(x);
            let w = want(*op, inside(&a, q), inside(&b, q));
            T::check(
                opname(*op),
                F::or(vec![
                    dist_ge(&a, q, eps).not(),
                    dist_ge(&b, q, eps).not(),
                    F::iff(got, w),
                ]),
            );
        }
    }
}

/// Area identities between the four results for every placement.
pub struct Areas {
    pub name: String,
    pub a: Fam,
    pub b: Fam,
    pub pars: Vec<Par>,
}
impl Scenario for Areas {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn inputs(&self) -> Vec<(&'static str, Q, Q)> {
        inputs(&self.pars)
    }
    fn run<T: Dom>(&self, p: &[T]) {
        let p = &fill(&self.pars, p);
        let (a, b) = (self.a.path(p), self.b.path(p));
        T::require(clear(&a, &b, T::d(1e-3)));
        let (pa, pb) = (pline_of(&a), pline_of(&b));
        let mut ar = vec![];
        for op in OPS {
            let r = pa.boolean(&pb, op);
            let (pos, neg) = result_paths(&r);
            T::note(pos.len() as u64 * 16 + neg.len() as u64);
            let mut s = T::i(0);
            for c in &pos {
                s = s + area(c).abs();
            }
            for c in &neg {
                s = s - area(c).abs();
            }
            ar.push(s);
        }
        let (aa, ab) = (area(&a).abs(), area(&b).abs());
        let tol = T::tol(2e-3);
        T::check("area(or)+area(and)", F::near(ar[0] + ar[1], aa + ab, tol));
        T::check("area(not)+area(and)", F::near(ar[2] + ar[1], aa, tol));
        T::check("area(xor)+area(and)", F::near(ar[3] + ar[1], ar[0], tol));
        T::check("0<=area(and)<=min", F::and(vec![F::le(-tol, ar[1]), F::le(ar[1], aa + tol), F::le(ar[1], ab + tol)]));
    }
}

fn bool_op<T: Dom>(a: &Path<T>, b: &Path<T>, op: BooleanOp) -> BooleanResult<Polyline<T>> {
    let (pa, pb) = (pline_of(a), pline_of(b));
    let r = if matches!(op, BooleanOp::And | BooleanOp::Xor) {
        // with the spatial index given
        let idx = pa.create_aabb_index();
        let mut o = PlineBooleanOptions::<T>::default();
        o.pline1_aabb_index = Some(&idx);
        pa.boolean_opt(&pb, op, &o)
    } else {
        pa.boolean(&pb, op)
    };
    T::note(r.pos_plines.len() as u64 * 16 + r.neg_plines.len() as u64);
    if std::env::var("SYMX_SHOW").is_ok() {
        let f = |v: &[BooleanResultPline<Polyline<T>>]| v.iter().map(|x| x.pline.vertex_data.iter().map(|v| (v.x.val(), v.y.val(), v.bulge.val())).collect::<Vec<_>>()).collect::<Vec<_>>();
        eprintln!("{} {} pos {:?} neg {:?}", T::SYMBOLIC, opname(op), f(&r.pos_plines), f(&r.neg_plines));
    }
    r
}
/// the parameters of a family: with k = 0 the first one as it is, otherwise it stands for the
/// point k (cos 4 atan w, sin 4 atan w), which keeps crossings of circles and their bulges rational
fn turn<T: Dom>(k: f64, p: &[T]) -> Vec<T> {
    if k == 0. {
        return p.to_vec();
    }
    let (c, s) = cs4(p[0]);
    let mut v = vec![c * T::d(k), s * T::d(k)];
    v.extend(&p[1..]);
    v
}
/// circles of the arcs
fn carriers<T: Dom>(a: &Path<T>) -> Vec<(P2<T>, T)> {
    a.segs().into_iter().filter(|x| !is_line(x.0)).map(|(x, y)| (arc_center(x, y), arc_r2(x, y).sqrt())).collect()
}
/// points at distance e on both sides of a segment (all of them for t in [0, 1]), each under a condition
fn aside<T: Dom>(feat: &[(P2<T>, T)], u: Vx<T>, v: Vx<T>, t: T, e: T) -> Vec<(F<T>, P2<T>)> {
    let mut out = vec![];
    if !is_line(u) {
        let (c, r2) = (arc_center(u, v), arc_r2(u, v));
        let d = T::d(1e-6);
        for (k, r) in feat {
            if T::test(F::and(vec![pnear(c, *k, d), F::near(r2, *r * *r, d)])) {
                let (x, y) = cs2(t);
                for w in [(x, y), (-y, x), (-x, -y), (y, -x)] {
                    for r in [*r + e, *r - e] {
                        let q = (k.0 + r * w.0, k.1 + r * w.1);
                        out.push((in_cone(u, v, q), q));
                    }
                }
                return out;
            }
        }
    }
    let (q, n) = left_normal(u, v, t);
    for k in [e, -e] {
        out.push((F::True, (q.0 + n.0 * k, q.1 + n.1 * k)));
    }
    out
}
scenario! {
    /// Membership on both sides of every input segment and of every returned segment; the last
    /// parameter is the position on them. Two regions that differ anywhere differ there.
    Sides { a: Fam, b: Fam, k: f64, ops: Vec<BooleanOp> } |s, p, T| {
        T::ideal(16);
        let p = &turn(s.k, p);
        let (a, b) = (s.a.path(p), s.b.path(p));
        let t = p[p.len() - 1];
        let (e, m) = (T::d(0.125), T::d(0.0625));
        let mut feat = carriers(&a);
        feat.extend(carriers(&b));
        for op in &s.ops {
            let (pos, neg) = result_paths(&bool_op(&a, &b, *op));
            let res: Vec<_> = pos.iter().chain(&neg).collect();
            let mut sg: Vec<_> = a.segs().into_iter().chain(b.segs()).collect();
            for x in res.iter().flat_map(|x| x.segs()) {
                // segments of the inputs are not probed twice
                if !sg.iter().any(|y| same_seg(x, *y)) {
                    sg.push(x);
                }
            }
            for (u, v) in sg {
                for (when, w) in aside(&feat, u, v, t, e) {
                    let mut when = vec![when];
                    if !feat.is_empty() {
                        // not level with a vertex, where the crossing parity of arcs changes in
                        // several terms at once
                        let l = T::d(0.0078125);
                        let mut seen: Vec<T> = vec![];
                        for x in [&a, &b].into_iter().chain(res.iter().copied()) {
                            for y in &x.v {
                                if !seen.iter().any(|z| z.same(y.1)) {
                                    seen.push(y.1);
                                    when.push(F::or(vec![F::le(y.1 + l, w.1), F::le(w.1, y.1 - l)]));
                                }
                            }
                        }
                    }
                    let when = F::and(when);
                    let got = F::Xor(res.iter().map(|c| inside(c, w)).collect());
                    let mut f = vec![F::iff(got, want(*op, inside(&a, w), inside(&b, w)))];
                    if !neg.is_empty() {
                        // a hole is in a positive region
                        let any = |v: &[Path<T>]| F::or(v.iter().map(|c| inside(c, w)).collect());
                        f.push(F::implies(any(&neg), any(&pos)));
                    }
                    let f = F::and(f);
                    T::check(opname(*op), F::implies(F::and(vec![when, dist_ge(&a, w, m), dist_ge(&b, w, m)]), f));
                }
            }
        }
    }
}
fn same_seg<T: Dom>(x: (Vx<T>, Vx<T>), y: (Vx<T>, Vx<T>)) -> bool {
    let id = |a: T, b: T| a.same(b);
    id(x.0.0, y.0.0) && id(x.0.1, y.0.1) && id(x.0.2, y.0.2) && id(x.1.0, y.1.0) && id(x.1.1, y.1.1)
}
scenario! {
    /// form and bookkeeping of the results; the last parameter is a position on segments
    Form { a: Fam, b: Fam, k: f64, ops: Vec<BooleanOp> } |s, p, T| {
        T::ideal(16);
        let p = &turn(s.k, p);
        let (a, b) = (s.a.path(p), s.b.path(p));
        let (pa, pb) = (pline_of(&a), pline_of(&b));
        let t = p[p.len() - 1];
        let tol = T::tol(1e-4);
        let near = |q: P2<T>| F::or(vec![dist_ge(&a, q, tol).not(), dist_ge(&b, q, tol).not()]);
        let mut feat = carriers(&a);
        feat.extend(carriers(&b));
        let mut info = None;
        for op in &s.ops {
            let r = bool_op(&a, &b, *op);
            let (pos, neg) = result_paths(&r);
            let all: Vec<Path<T>> = pos.into_iter().chain(neg).collect();
            T::check("results do not cross", no_cross(&all));
            let parts: Vec<_> = r.pos_plines.iter().chain(&r.neg_plines).collect();
            for (x, part) in all.iter().zip(parts) {
                T::check("closed, at least two vertexes", F::bool(x.closed && x.v.len() >= 2));
                for (u, v) in x.segs() {
                    T::check("no repeated position", pnear(xy(u), xy(v), T::d(1e-5)).not());
                    for (when, q) in seg_points(&feat, u, v, t) {
                        T::check("along the inputs", F::implies(when, near(q)));
                    }
                }
                if matches!(r.result_info, BooleanResultInfo::Intersected) {
                    T::check("sub-slices", F::bool(!part.subslices.is_empty()));
                    let mut sg = vec![];
                    for y in &part.subslices {
                        let src = if y.source_is_pline1 { &pa } else { &pb };
                        sg.extend(path_of(&y.view(src)).segs());
                    }
                    let xs = x.segs();
                    T::check("sub-slices have the segments of the result", F::bool(sg.len() == xs.len()));
                    if sg.len() == xs.len() {
                        for (g, h) in sg.iter().zip(&xs) {
                            T::check("sub-slices join up to the result", F::and(vec![pnear(xy(g.0), xy(h.0), tol), pnear(xy(g.1), xy(h.1), tol), F::near(g.0.2, h.0.2, tol)]));
                        }
                    }
                }
            }
            let k = match r.result_info {
                BooleanResultInfo::InvalidInput => 0,
                BooleanResultInfo::Pline1InsidePline2 => 1,
                BooleanResultInfo::Pline2InsidePline1 => 2,
                BooleanResultInfo::Disjoint => 3,
                BooleanResultInfo::Overlapping => 4,
                BooleanResultInfo::Intersected => 5,
            };
            T::check("one status for all operations", F::bool(info.is_none_or(|i| i == k)));
            info = Some(k);
        }
        let k = info.unwrap();
        T::note(k);
        T::check("valid input", F::bool(k != 0));
        let (v, w) = (xy(a.v[0]), xy(b.v[0]));
        if k == 1 || k == 2 || k == 3 {
            let apart = |x: &Path<T>, y: &Path<T>| F::and(x.segs().into_iter().flat_map(|(u, v)| seg_points(&feat, u, v, t)).map(|(when, q)| F::implies(when, dist_ge(y, q, T::tol(2e-6)))).collect());
            T::check("status: no common point", F::and(vec![apart(&a, &b), apart(&b, &a)]));
            T::check("status: inside or disjoint", F::and(vec![F::iff(inside(&b, v), F::bool(k == 1)), F::iff(inside(&a, w), F::bool(k == 2))]));
        } else if k == 4 {
            let along = |x: &Path<T>, y: &Path<T>| F::and(x.segs().into_iter().flat_map(|(u, v)| seg_points(&feat, u, v, t)).map(|(when, q)| F::implies(when, dist_ge(y, q, tol).not())).collect());
            T::check("status: same path", F::and(vec![along(&a, &b), along(&b, &a)]));
        } else {
            let i = pa.find_intersects(&pb);
            let mut c: Vec<P2<T>> = i.basic_intersects.iter().map(|x| p2(x.point)).collect();
            c.extend(i.overlapping_intersects.iter().map(|x| p2(x.point1)));
            T::check("status: a common point", F::or(c.into_iter().map(|q| F::and(vec![dist_ge(&a, q, tol).not(), dist_ge(&b, q, tol).not()])).collect()));
        }
    }
}
scenario! {
    /// open or too short inputs
    Invalid { a: Fam, b: Fam } |s, p, T| {
        let (a, b) = (s.a.path(p), s.b.path(p));
        for op in OPS {
            let r = bool_op(&a, &b, op);
            T::check("invalid input gives nothing", F::bool(matches!(r.result_info, BooleanResultInfo::InvalidInput) && r.pos_plines.is_empty() && r.neg_plines.is_empty()));
        }
    }
}
/// a sector of a disc with radius 3.125 (bulge 0.5 keeps its end rational)
fn pie() -> Fam {
    closed(&[(0., 0., 0.), (3.125, 0., 0.5), (-0.875, 3., 0.)])
}
fn comb() -> Fam {
    closed(&[(0., -2., 0.), (8., -2., 0.), (8., 3., 0.), (6., 3., 0.), (6., -1., 0.), (5., -1., 0.), (5., 3., 0.), (3., 3., 0.), (3., -1., 0.), (2., -1., 0.), (2., 3., 0.), (0., 3., 0.)])
}
type Pair = (&'static str, Fam, Fam, f64, f64, f64);
/// a fixed shape and one that moves; name, shapes, range of the parameter, and k (see `turn`)
fn pairs() -> Vec<Pair> {
    let sq = || rect(0., 0., 4., 4.);
    let x = |f: Fam| f.tr(0, 1., 0.);
    // tan of pi / 8, a little less
    let h = 0.4140625;
    vec![
        ("square-square", sq(), x(rect(0., 1., 3., 3.)), -4., 5., 0.),
        ("square-edge", sq(), x(rect(0., 0., 3., 2.)), -4., 5., 0.),
        ("same-square", sq(), x(rect(0., 0., 4., 4.).rot(2)), -5., 5., 0.),
        ("square-rev", sq(), x(rect(0., 1., 3., 3.).rev()), -4., 5., 0.),
        ("rev-edge", sq().rev(), x(rect(0., 0., 3., 4.).rot(1)), -4., 5., 0.),
        ("u-bar", uu(), x(rect(-1., 3., 3., 4.)), -4., 8., 0.),
        ("u-tooth", uu(), x(rect(0., 1., 1., 6.).rot(3)), -2., 7., 0.),
        ("u-block", uu(), rect(2., 0., 4., 3.).tr(0, 0., 1.), -4., 6., 0.),
        ("u-u", uu(), x(uu().rev()), -7., 7., 0.),
        ("ell-tri", ell(), x(tri().rot(1)), -5., 5., 0.),
        ("ell-ell", ell(), ell().tr(0, 1., 1.), -5., 5., 0.),
        // a circle across an edge
        ("square-circle", sq(), x(circle(4., 2., 1.)), 0.0625, 1., 1.),
        ("square-circle-rev", sq().rot(1), x(circle(4., 2., 1.).rev()), 0.0625, 1., 1.),
        ("circle-square", x(circle(4., 2., 1.).rot(1)), sq().rev(), 0.0625, 1., 1.),
        ("square-disc", sq(), x(circle(4., 2., 3.)), 0.0625, 1., 3.),
        ("circle-bar", circle(0., 0., 2.), x(rect(0., -1., 8., 1.)), 0.0625, 1., 2.),
        ("circle-wall", circle(0., 0., 2.), x(rect(0., -3., 8., 3.).rev()), 0.0625, 1., 2.),
        ("circle-in", circle(0., 0., 2.), x(rect(-1., -1., 1., 1.)), -0.6875, 0.6875, 0.),
        ("circle-circle", circle(0., 0., 2.), x(circle(0., 0., 2.)), 0.0625, h, 4.),
        ("circle-circle-y", circle(0., 0., 2.).rev(), circle(0., 0., 2.).tr(0, 0., 1.), 0.0625, h, 4.),
        ("circle-dot", circle(0., 0., 3.), circle(0.625, 0., 0.625).tr(0, 1., 0.).tr(1, 0., 1.), 0.0625, h, 3.),
        ("circle-dots", circle(0., 0., 3.), x(circle(0., 0., 1.)), -1.875, 1.875, 0.),
        ("stadium-bar", stadium(), x(rect(4., -1., 9., 3.)), 0.0625, h, 1.),
        ("stadium-beam", stadium(), x(rect(0., 0.5, 3., 1.5)), -2., 3., 0.),
        ("stadium-stadium", stadium(), x(stadium().at(4., 0.)), 0.0625, h, 2.),
        ("stadium-shift", stadium(), x(stadium()), 0.125, 3.5, 0.),
        ("arcy-bar", arcy(), x(rect(0., 1., 8., 3.)), -1., 4.5, 0.),
        ("half-half", half_disc(), x(half_disc()), 0.0625, h, 4.),
        ("half-rev", half_disc().rev(), x(half_disc().rot(1)), 0.0625, h, 4.),
        ("half-wall", half_disc(), x(rect(2., -1., 7., 5.)), 0.0625, 1., 2.),
        // the same or next to each other
        ("same-circle", circle(0., 0., 2.), circle(0., 0., 2.).rev().rot(1), 0., 0., 0.),
        ("same-stadium", stadium(), stadium().rot(2), 0., 0., 0.),
        ("same-arcy", arcy(), arcy().rev(), 0., 0., 0.),
        ("arcy-chord", arcy(), rect(0., 0., 4., 4.), 0., 0., 0.),
        ("disc-half", circle(2., 0., 2.), half_disc(), 0., 0., 0.),
        ("disc-half-rev", half_disc().rot(1), circle(2., 0., 2.).rev(), 0., 0., 0.),
        ("disc-half-top", closed(&[(2., -2., 1.), (2., 2., 1.)]), half_disc(), 0., 0., 0.),
        ("disc-half-side", half_disc(), closed(&[(2., 2., 1.), (2., -2., 1.)]).rev(), 0., 0., 0.),
        ("disc-pie", circle(0., 0., 3.125), pie(), 0., 0., 0.),
        ("pie-pie", pie(), closed(&[(0., 0., 0.), (-0.875, 3., 0.5), (-2.635, -1.68, 0.)]), 0., 0., 0.),
        ("pie-disc", pie().rev().rot(1), circle(0., 0., 3.125), 0., 0., 0.),
        ("square-in-disc", sq(), circle(2., 2., 2.), 0., 0., 0.),
        ("disc-in-disc", circle(0., 0., 3.), circle(1., 0., 2.), 0., 0., 0.),
        ("disc-by-disc", circle(0., 0., 3.), circle(5., 0., 2.).rev(), 0., 0., 0.),
        ("square-diamond", sq(), x(closed(&[(4., 2., 0.), (2., 4., 0.), (0., 2., 0.), (2., 0., 0.)])), -4., 5., 0.),
        ("comb-bar", comb(), rect(-1., 1., 9., 2.).tr(0, 0., 1.), -3., 4., 0.),
        ("comb-comb", comb(), comb().rev().at(1., 0.).tr(0, 0., 1.), -4., 4., 0.),
        ("comb-teeth", comb(), x(comb().rot(3)), -9., 9., 0.),
        ("arcy-arcy", arcy(), x(arcy()), -6., 6., 0.),
        ("arcy-circle", arcy(), x(circle(0., 3., 1.5)), -4., 7., 0.),
        ("u-circle", uu(), x(circle(0., 4., 1.5)), -3., 9., 0.),
        ("u-stadium", uu(), stadium().tr(0, 0., 1.), -4., 7., 0.),
        ("square-circle-any", sq(), x(circle(0., 2., 1.)), -2., 6., 0.),
        ("stadium-any", stadium(), x(stadium()), -7., 7., 0.),
        ("half-any", half_disc(), x(half_disc()), -5., 5., 0.),
    ]
}
/// pairs that are left to the thorough tier with the position free, for membership and for form;
/// those of the first list also stand at a few places
const ARCS: &[&str] = &[
    "square-circle", "square-circle-rev", "circle-square", "square-disc", "circle-bar", "circle-wall", "circle-circle", "circle-circle-y", "circle-dot", "stadium-bar", "stadium-beam", "stadium-stadium",
    "arcy-bar", "half-half", "half-rev", "half-wall", "ell-tri",
];
const ANY: &[&str] = &["arcy-arcy", "arcy-circle", "u-circle", "u-stadium", "square-circle-any", "stadium-any", "half-any"];
const FORM: &[&str] = &["arcy-arcy", "arcy-circle", "u-circle", "square-disc", "circle-bar", "circle-wall", "half-wall"];
const SLOW: &[(&str, f64)] = &[("circle-dot", 0.109375), ("circle-dot", 0.171875), ("circle-dot", 0.296875), ("circle-dot", 0.234375), ("square-disc", 0.53125)];
fn pair_scens(th: bool, slow: &[&str], mk: fn(String, Fam, Fam, f64, Vec<Par>) -> Scen) -> Vec<Scen> {
    let mut out = vec![];
    let t = || par("t", 0., 1.);
    for (n, a, b, lo, hi, k) in pairs() {
        if th || !slow.contains(&n) {
            out.push(mk(n.into(), a.clone(), b.clone(), k, vec![if lo < hi { par("m", lo, hi) } else { fixed("m", lo) }, t()]));
        }
        if ARCS.contains(&n) || (th && ANY.contains(&n)) {
            let at: &[f64] = if th { &[0.0625, 0.125, 0.1875, 0.25, 0.3125, 0.375, 0.4375, 0.5, 0.5625, 0.625, 0.6875, 0.75, 0.8125, 0.875, 0.9375] } else { &[0.125, 0.3125, 0.5, 0.6875, 0.875] };
            for x in at {
                let m = lo + (hi - lo) * x;
                let m = (m * 64.).round() / 64.;
                if !th && SLOW.contains(&(n, m)) {
                    continue;
                }
                out.push(mk(format!("{n}@{m}"), a.clone(), b.clone(), k, vec![fixed("m", m), t()]));
            }
        }
    }
    out
}
fn c02(th: bool) -> Vec<Scen> {
    let mut v = pair_scens(th, FORM, |n, a, b, k, pars| Box::new(Form { name: format!("form/{n}"), a, b, k, ops: OPS.to_vec(), pars }));
    let sq = || rect(0., 0., 4., 4.);
    let op = || open(&[(0., 0., 0.5), (1., 3., 0.)]);
    let m = || vec![par("m", -3., 3.)];
    for (n, a, b) in [
        ("open", sq(), op().tr(0, 1., 0.)),
        ("open-first", op().tr(0, 1., 0.), sq()),
        ("one", sq(), closed(&[(1., 1., 0.)]).tr(0, 1., 0.)),
        ("one-first", closed(&[(1., 1., 0.)]).tr(0, 1., 0.), sq()),
        ("none", sq().tr(0, 1., 0.), closed(&[])),
        ("none-first", closed(&[]), sq().tr(0, 1., 0.)),
    ] {
        v.push(Box::new(Invalid { name: format!("invalid/{n}"), a, b, pars: m() }));
    }
    v
}

pub fn props() -> Vec<crate::props::Prop> {
    vec![crate::props::Prop {
        id: "C01",
        functions: &[
            "PlineSource::boolean", "PlineSource::boolean_opt", "polyline_boolean", "process_for_boolean",
            "slice_at_intersects", "prune_slices", "stitch_slices_into_closed_polylines", "find_intersects",
            "pline_seg_intr", "line_line_intr", "line_circle_intr", "circle_circle_intr", "winding_number",
            "orientation", "PlineViewData (all constructors)", "StaticAABB2DIndex",
        ],
        bounds: "two closed polylines of at most 8 segments each from the listed families; placements and probe points within the listed ranges; one polyline fixed",
        assumptions: &["features of the two inputs coincide exactly or are at least 1e-3 apart"],
        quick_budget: 120,
        scens: c01,
        findings: crate::props::no_scens,
    }, crate::props::Prop {
        id: "C02",
        functions: &["PlineSource::boolean", "polyline_boolean", "process_for_boolean", "slice_at_intersects", "prune_slices", "stitch_slices_into_closed_polylines", "BooleanPlineSlice::view", "PlineViewData (all constructors)", "find_intersects"],
        bounds: "two closed polylines of at most 8 segments each from the listed families, one moving along a line; every position on input and returned segments",
        assumptions: &["positions, angles and parameters the library compares with a tolerance are equal or differ by clearly more than it"],
        quick_budget: 150,
        scens: c02,
        findings: crate::props::no_scens,
    }]
}
fn probe(name: &str, a: Fam, b: Fam, pars: Vec<Par>, probe: usize) -> Scen {
    Box::new(Probe { name: name.into(), a, b, pars, probe, ops: OPS.to_vec() })
}
fn areas(name: &str, a: Fam, b: Fam, pars: Vec<Par>) -> Scen {
    Box::new(Areas { name: name.into(), a, b, pars })
}
fn c01(th: bool) -> Vec<Scen> {
    let sq = rect(0., 0., 4., 4.);
    let s3 = rect(0., 0., 3., 3.);
    let t = || vec![par("tx", -7., 7.), par("ty", -7., 7.)];
    let pp = |mut v: Vec<Par>| {
        v.push(par("px", -8., 8.));
        v.push(par("py", -8., 8.));
        v
    };
    let u1 = || vec![par("t", -7., 7.)];
    let mut v = pair_scens(th, &[ARCS, ANY].concat(), |n, a, b, k, pars| Box::new(Sides { name: format!("sides/{n}"), a, b, k, ops: OPS.to_vec(), pars }));
    v.extend(vec![
        areas("areas/squares", sq.clone(), s3.clone().tr(0, 1., 0.).tr(1, 0., 1.), t()),
        probe("probe/squares", sq.clone(), s3.clone().tr(0, 1., 0.).tr(1, 0., 1.), pp(t()), 2),
        probe("probe/U-tri", uu(), tri().tr(0, 1., 0.5), pp(u1()), 1),
    ]);
    v
}
