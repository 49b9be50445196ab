//! Offsets of shapes made of several polylines.
use crate::explore::*;
use crate::fam::*;
use crate::geo::*;
use crate::props::offset::*;
use crate::scenario;
use crate::sym::*;
use cavalier_contours::shape_algorithms::*;

const TOL: f64 = 2e-3;

struct Res<T: Dom> {
    ccw: Vec<Path<T>>,
    cw: Vec<Path<T>>,
}
fn run<T: Dom>(a: &[Path<T>], d: T) -> (Shape<T>, Res<T>) {
    let s = Shape::from_plines(a.iter().map(pline_of));
    let r = s.parallel_offset(d, ShapeOffsetOptions::default());
    let f = |v: &[IndexedPolyline<T>]| v.iter().map(|x| path_of(&x.polyline)).collect::<Vec<_>>();
    let o = Res { ccw: f(&r.ccw_plines), cw: f(&r.cw_plines) };
    for x in o.ccw.iter().chain(&o.cw) {
        T::note(x.v.len() as u64);
    }
    T::note((o.ccw.len() * 16 + o.cw.len()) as u64);
    (r, o)
}
fn all<T: Dom>(r: &Res<T>) -> Vec<Path<T>> {
    r.ccw.iter().chain(&r.cw).map(|x| Path { v: x.v.clone(), closed: x.closed }).collect()
}
scenario! {
    /// the last parameter is a position on the returned segments; s is the sign of the distance
    Sound { a: Vec<Fam>, d: usize, s: f64 } |s, p, T| {
        T::ideal(16);
        let a: Vec<Path<T>> = s.a.iter().map(|x| x.path(p)).collect();
        let ad = p[s.d];
        let d = if s.s < 0. { -ad } else { ad };
        let t = p[p.len() - 1];
        let tol = T::tol(TOL);
        let (sh, r) = run(&a, d);
        let mut feat = vec![];
        for x in &a {
            feat.extend(circles(x, ad));
        }
        let rs = all(&r);
        T::check("results do not cross", no_cross(&rs));
        for (k, x) in rs.iter().enumerate() {
            T::check("results are closed", F::bool(x.closed && x.v.len() >= 2));
            for (u, v) in x.segs() {
                for (when, q) in seg_points(&feat, u, v, t) {
                    T::check("never nearer than the distance", F::implies(when.clone(), dist_ge_all(&a, q, ad - tol)));
                    T::check("never farther than the distance", F::implies(when.clone(), dist_lt_any(&a, q, ad + tol)));
                }
            }
            // the stored index has a box around it
            let at = sh.plines_index.item_indices().iter().position(|i| *i == k);
            let m = T::tol(1e-6);
            T::check("index of the polylines", match at.map(|i| &sh.plines_index.item_boxes()[i]) {
                None => F::bool(false),
                Some(b) => F::and(x.segs().into_iter().flat_map(|(u, v)| [xy(u), seg_pt(u, v, T::d(0.5))]).flat_map(|q| [F::le(b.min_x, q.0 + m), F::le(q.0, b.max_x + m), F::le(b.min_y, q.1 + m), F::le(q.1, b.max_y + m)]).collect()),
            });
            // direction: just left of the middle of a long side
            let sg = x.segs();
            if let Some((i, (u, v))) = sg.iter().enumerate().find(|(_, (u, v))| T::test(F::lt(T::d(0.25), d2(xy(*u), xy(*v))))) {
                let (q, n) = left_normal(*u, *v, T::d(0.5));
                let e = T::d(1e-2);
                let w = (q.0 + n.0 * e, q.1 + n.1 * e);
                let f = inside(x, w);
                let clear = F::and(sg.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, (u, v))| seg_dist_ge(*u, *v, w, e + e)).collect());
                T::check("direction", F::implies(clear, if k < r.ccw.len() { f } else { f.not() }));
            }
        }
    }
}
scenario! {
    /// the last parameter is a position on the input segments
    Complete { a: Vec<Fam>, d: usize, s: f64 } |s, p, T| {
        T::ideal(16);
        let a: Vec<Path<T>> = s.a.iter().map(|x| x.path(p)).collect();
        let ad = p[s.d];
        let d = if s.s < 0. { -ad } else { ad };
        let t = p[p.len() - 1];
        let (_, r) = run(&a, d);
        let rs = all(&r);
        let near = T::tol(1e-2);
        let gap = T::d(1e-3);
        let sg: Vec<_> = a.iter().flat_map(|x| x.segs()).collect();
        for (i, (u, v)) in sg.iter().enumerate() {
            let (q, n) = left_normal(*u, *v, t);
            let w = (q.0 + n.0 * d, q.1 + n.1 * d);
            let mut far = vec![];
            for (j, x) in sg.iter().enumerate() {
                if j != i {
                    far.push(seg_dist_ge(x.0, x.1, w, ad + gap));
                } else if !is_line(*u) {
                    far.push(seg_dist_ge(x.0, x.1, w, ad - gap));
                }
            }
            T::check("every point at the distance is on a result", F::implies(F::and(far), dist_lt_any(&rs, w, near)));
        }
    }
}
type Spec = (&'static str, Vec<Fam>, Vec<Par>, f64);
fn specs(th: bool) -> Vec<Spec> {
    let m = |lo: f64, hi: f64| vec![par("m", lo, hi)];
    let hole = |f: Fam| f.rev();
    let big = || rect(0., 0., 12., 10.);
    let mut v: Vec<Spec> = vec![
        ("frame", vec![big(), hole(rect(3., 3., 7., 6.))], vec![], 3.),
        ("islands", vec![rect(0., 0., 4., 4.), rect(6., 1., 9., 3.)], vec![], 3.),
        ("round-hole", vec![big(), hole(circle(5., 4., 2.))], vec![], 3.),
        ("holes", vec![big(), hole(rect(2., 3., 4., 6.)), hole(rect(6., 4., 9., 7.))], vec![], 3.),
        ("nested", vec![big(), hole(rect(1., 1., 11., 9.)), rect(4., 4., 8., 6.)], vec![], 2.),
        ("round-frame", vec![circle(0., 0., 6.), hole(circle(1., 0., 3.))], vec![], 3.),
        ("disc-square", vec![circle(0., 0., 6.), hole(rect(-1., -2., 2., 1.))], vec![], 4.),
        ("discs", vec![circle(0., 0., 2.), circle(5., 0., 2.)], vec![], 3.),
        ("notch-hole", vec![uu().sc(2.), hole(circle(6., 2., 1.))], vec![], 2.),
    ];
    for d in [0.75, 1.25, 2.5] {
        v.push(("frame-move", vec![big(), hole(rect(3., 3., 7., 6.)).tr(0, 1., 0.)], m(-2.5, 4.5), -d));
    }
    for d in [1.25, 2.5] {
        v.push(("round-hole-move", vec![big(), hole(circle(5., 4., 2.)).tr(0, 1., 0.)], m(-2.5, 4.5), -d));
        v.push(("holes-move", vec![big(), hole(rect(2., 3., 4., 6.)), hole(rect(5., 4., 7., 7.)).tr(0, 1., 0.)], m(-0.5, 4.5), -d));
        v.push(("disc-square-move", vec![circle(0., 0., 6.), hole(rect(-2., -1., 1., 1.)).tr(0, 1., 0.)], m(-3., 3.5), -d));
    }
    for d in [0.5, 1.5] {
        v.push(("islands-move", vec![rect(0., 0., 4., 4.), rect(0., 0., 3., 2.).tr(0, 1., 0.).at(0., 4.5)], m(-5., 6.), -d));
        v.push(("discs-move", vec![circle(0., 0., 2.), circle(0., 4.5, 2.).tr(0, 1., 0.)], m(-5., 5.), -d));
        v.push(("hole-move", vec![big(), hole(circle(6., 4., 2.)).tr(0, 0., 1.)], m(-1.5, 3.5), -d));
    }
    if th {
        v.push(("frame-any", vec![big(), hole(rect(3., 3., 7., 6.)).tr(0, 1., 0.)], m(-2.5, 4.5), 3.));
    }
    v
}
/// left to the thorough tier
const SLOW: &[&str] = &["disc-square+", "round-hole+", "holes+", "disc-square-move@2.5+"];
type Mk = fn(String, Vec<Fam>, usize, f64, Vec<Par>) -> Scen;
fn family(mk: Mk, th: bool) -> Vec<Scen> {
    let mut v = vec![];
    for (n, a, mut pars, hi) in specs(th) {
        let n = if hi < 0. { format!("{n}@{}", -hi) } else { n.to_string() };
        pars.push(if hi < 0. { fixed("d", -hi) } else { par("d", 0.0625, hi) });
        pars.push(par("t", 0., 1.));
        let d = pars.len() - 2;
        for s in [1., -1.] {
            let g = if s > 0. { "+" } else { "-" };
            v.push(mk(format!("{n}{g}"), a.clone(), d, s, pars.clone()));
        }
    }
    if !th {
        v.retain(|x| !SLOW.contains(&x.name().trim_start_matches("complete/")));
    }
    v
}
fn scens(th: bool) -> Vec<Scen> {
    let mut v = family(|name, a, d, s, pars| Box::new(Sound { name, a, d, s, pars }), th);
    v.extend(family(|name, a, d, s, pars| Box::new(Complete { name: format!("complete/{name}"), a, d, s, pars }), th));
    v
}
pub fn props() -> Vec<crate::props::Prop> {
    vec![crate::props::Prop {
        id: "C05",
        functions: &["Shape::from_plines", "Shape::parallel_offset", "IndexedPolyline::new", "parallel_offset (per polyline)", "find_intersects", "point_valid_for_offset", "PlineViewData::from_slice_points", "PlineViewData::from_entire_pline", "orientation", "area"],
        bounds: "shapes of at most 3 polylines from the listed families; every offset distance in the listed ranges, or every position of one polyline at fixed distances; every position on the returned and input segments",
        assumptions: &["positions, angles and parameters the library compares with a tolerance are equal or differ by clearly more than it"],
        quick_budget: 120,
        scens,
        findings: crate::props::no_scens,
    }]
}
