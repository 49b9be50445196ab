//! Parallel offsets.
use crate::explore::*;
use crate::fam::*;
use crate::geo::*;
use crate::props::path::*;
use crate::scenario;
use crate::sym::*;
use cavalier_contours::polyline::*;

/// slack of the distance claims
const TOL: f64 = 2e-3;

fn outs<T: Dom>(r: &[Polyline<T>]) -> Vec<Path<T>> {
    r.iter().map(|q| path_of(q)).collect()
}
/// index of the distance parameter; its sign is a factor
#[derive(Clone, Copy)]
pub struct Off {
    pub d: usize,
    pub s: f64,
    /// travel direction of a closed input
    pub ccw: bool,
    pub self_intr: bool,
    /// pass a prebuilt spatial index
    pub index: bool,
}
fn offset<T: Dom>(a: &Path<T>, d: T, o: Off) -> Vec<Path<T>> {
    let pa = pline_of(a);
    let ix = pa.create_approx_aabb_index();
    let mut r = PlineOffsetOptions::<T>::default();
    r.handle_self_intersects = o.self_intr;
    if o.index {
        r.aabb_index = Some(&ix);
    }
    outs(&pa.parallel_offset_opt(d, &r))
}
/// two segments cross properly, by more than a hair (lines only)
pub fn cross_lines<T: Dom>(a: (Vx<T>, Vx<T>), b: (Vx<T>, Vx<T>)) -> F<T> {
    let e = T::tol(1e-3);
    let side = |s: (Vx<T>, Vx<T>), q: Vx<T>| {
        let (u, v) = (xy(s.0), xy(s.1));
        cross(sub(v, u), sub(xy(q), u))
    };
    let opp = |x: T, y: T| {
        F::or(vec![
            F::and(vec![F::lt(e, x), F::lt(y, -e)]),
            F::and(vec![F::lt(e, y), F::lt(x, -e)]),
        ])
    };
    F::and(vec![opp(side(a, b.0), side(a, b.1)), opp(side(b, a.0), side(b, a.1))])
}
pub fn no_cross<T: Dom>(r: &[Path<T>]) -> F<T> {
    let s: Vec<_> = r.iter().flat_map(|x| x.segs()).filter(|x| is_line(x.0)).collect();
    let mut f = vec![];
    for i in 0..s.len() {
        for j in 0..i {
            f.push(cross_lines(s[i], s[j]).not());
        }
    }
    F::and(f)
}
fn signed<T: Dom>(o: Off, p: &[T]) -> T {
    if o.s < 0. { -p[o.d] } else { p[o.d] }
}
/// the circles that offset arcs may run along
pub fn circles<T: Dom>(a: &Path<T>, ad: T) -> Vec<(P2<T>, T)> {
    let mut v = vec![];
    for (x, y) in a.segs() {
        if !is_line(x) {
            let (c, r) = (arc_center(x, y), arc_r2(x, y).sqrt());
            v.push((c, r + ad));
            v.push((c, (r - ad).abs()));
        }
    }
    v.extend(a.v.iter().map(|x| (xy(*x), ad)));
    v
}
/// points of a segment for t in [0, 1]: all of them are covered, each only under a condition.
/// Arcs along one of the given circles (within 1e-6) are replaced by those.
pub fn seg_points<T: Dom>(feat: &[(P2<T>, T)], u: Vx<T>, v: Vx<T>, t: T) -> Vec<(F<T>, P2<T>)> {
    if !is_line(u) {
        let (c, r2) = (arc_center(u, v), arc_r2(u, v));
        let e = T::d(1e-6);
        for (k, r) in feat {
            if T::test(F::and(vec![pnear(c, *k, e), F::near(r2, *r * *r, e)])) {
                let (x, y) = cs2(t);
                return [(x, y), (-y, x), (-x, -y), (y, -x)]
                    .into_iter()
                    .map(|w| {
                        let q = (k.0 + *r * w.0, k.1 + *r * w.1);
                        (in_cone(u, v, q), q)
                    })
                    .collect();
            }
        }
    }
    vec![(F::True, seg_pt(u, v, t))]
}
scenario! {
    /// the last parameter is a position on the returned segments
    Sound { a: Fam, o: Off } |s, p, T| {
        T::ideal(16);
        let a = s.a.path(p);
        let (ad, d) = (p[s.o.d], signed(s.o, p));
        let t = p[p.len() - 1];
        let tol = T::tol(TOL);
        let r = offset(&a, d, s.o);
        T::note(r.len() as u64 * 64 + r.iter().map(|x| x.v.len() as u64).sum::<u64>());
        let feat = circles(&a, ad);
        T::check("results do not cross", no_cross(&r));
        for r in &r {
            T::check("at least two vertexes", F::bool(r.v.len() >= 2));
            if a.closed {
                T::check("closed results of a closed input", F::bool(r.closed));
            }
            for (u, v) in r.segs() {
                for (when, q) in seg_points(&feat, u, v, t) {
                    T::check("never nearer than the distance", F::implies(when.clone(), dist_ge(&a, q, ad - tol)));
                    T::check("never farther than the distance", F::implies(when.clone(), dist_lt(&a, q, ad + tol)));
                    if a.closed && !s.o.self_intr {
                        let f = inside(&a, q);
                        T::check("on the proper side", F::implies(when, if s.o.ccw == (s.o.s > 0.) { f } else { f.not() }));
                    }
                }
            }
        }
    }
}
/// point of a segment and the unit normal to the left there
pub fn left_normal<T: Dom>(u: Vx<T>, v: Vx<T>, t: T) -> (P2<T>, P2<T>) {
    let q = seg_pt(u, v, t);
    if is_line(u) {
        let c = sub(xy(v), xy(u));
        let l = dot(c, c).sqrt();
        (q, (-c.1 / l, c.0 / l))
    } else {
        let c = arc_center(u, v);
        let r = arc_r2(u, v).sqrt();
        let k = sub(c, q);
        let n = (k.0 / r, k.1 / r);
        (q, if u.2 > T::i(0) { n } else { (-n.0, -n.1) })
    }
}
scenario! {
    /// the last parameter is a position on the input segments
    Complete { a: Fam, o: Off } |s, p, T| {
        T::ideal(16);
        let a = s.a.path(p);
        let (ad, d) = (p[s.o.d], signed(s.o, p));
        let t = p[p.len() - 1];
        let r = offset(&a, d, s.o);
        if std::env::var("SYMX_SHOW").is_ok() { eprintln!("{} d {} : {:?}", T::SYMBOLIC, d.val(), r.iter().map(|x| x.v.iter().map(|v| (v.0.val(), v.1.val(), v.2.val())).collect::<Vec<_>>()).collect::<Vec<_>>()); }
        T::note(r.len() as u64 * 64 + r.iter().map(|x| x.v.len() as u64).sum::<u64>());
        let near = T::tol(1e-2);
        let gap = T::d(1e-3);
        let sg = a.segs();
        for i in 0..sg.len() {
            let (u, v) = sg[i];
            let (q, n) = left_normal(u, v, t);
            let w = (q.0 + n.0 * d, q.1 + n.1 * d);
            let mut far = vec![];
            for (j, x) in sg.iter().enumerate() {
                if j != i {
                    far.push(seg_dist_ge(x.0, x.1, w, ad + gap));
                } else if !is_line(u) {
                    // the arc itself, when offsetting past its centre
                    far.push(seg_dist_ge(x.0, x.1, w, ad - gap));
                }
            }
            T::check("every point at the distance is on a result", F::implies(F::and(far), dist_lt_any(&r, w, near)));
        }
    }
}
/// travel directions (not normalised) at the start and end of a segment
fn dirs<T: Dom>(u: Vx<T>, v: Vx<T>) -> (P2<T>, P2<T>) {
    if is_line(u) {
        let d = sub(xy(v), xy(u));
        return (d, d);
    }
    let c = arc_center(u, v);
    let f = |p: P2<T>| {
        let k = sub(p, c);
        if u.2 > T::i(0) { (-k.1, k.0) } else { (k.1, -k.0) }
    };
    (f(xy(u)), f(xy(v)))
}
scenario! {
    /// points at the distance from a vertex, between the normals of its two segments;
    /// the last parameter is a position on the circle
    Corner { a: Fam, o: Off } |s, p, T| {
        T::ideal(16);
        let a = s.a.path(p);
        let (ad, d) = (p[s.o.d], signed(s.o, p));
        let cs = cs2(p[p.len() - 1]);
        let r = offset(&a, d, s.o);
        T::note(r.len() as u64 * 64 + r.iter().map(|x| x.v.len() as u64).sum::<u64>());
        let near = T::tol(1e-2);
        let gap = T::d(1e-3);
        let sg = a.segs();
        let z = T::i(0);
        for i in 0..sg.len() {
            if i == 0 && !a.closed {
                continue;
            }
            let h = if i == 0 { sg.len() - 1 } else { i - 1 };
            let (din, dout) = (dirs(sg[h].0, sg[h].1).1, dirs(sg[i].0, sg[i].1).0);
            let turn = if d > z { -cross(din, dout) } else { cross(din, dout) };
            if turn <= z {
                continue;
            }
            let x = xy(sg[i].0);
            for w in [(cs.0, cs.1), (-cs.1, cs.0), (-cs.0, -cs.1), (cs.1, -cs.0)] {
                let q = (x.0 + w.0 * ad, x.1 + w.1 * ad);
                let mut when = vec![F::le(z, dot(din, w)), F::le(dot(dout, w), z)];
                for (j, y) in sg.iter().enumerate() {
                    if j != i && j != h {
                        when.push(seg_dist_ge(y.0, y.1, q, ad + gap));
                    } else if !is_line(y.0) {
                        when.push(seg_dist_ge(y.0, y.1, q, ad - gap));
                    }
                }
                T::check("every point at the distance of a corner is on a result", F::implies(F::and(when), dist_lt_any(&r, q, near)));
            }
        }
    }
}
fn dumbbell() -> Fam {
    closed(&[
        (0., 0., 0.), (4., 0., 0.), (4., 1.5, 0.), (6., 1.5, 0.), (6., 0., 0.), (10., 0., 0.),
        (10., 4., 0.), (6., 4., 0.), (6., 2.5, 0.), (4., 2.5, 0.), (4., 4., 0.), (0., 4., 0.),
    ])
}
/// block with a half-round bite in its top
fn bite() -> Fam {
    closed(&[(0., 0., 0.), (8., 0., 0.), (8., 4., 0.), (6., 4., -1.), (2., 4., 0.), (0., 4., 0.)])
}
/// block with a half-round bump on its top
fn bump() -> Fam {
    closed(&[(0., 0., 0.), (8., 0., 0.), (8., 4., 0.), (6., 4., 1.), (2., 4., 0.), (0., 4., 0.)])
}
/// name, shape, shape parameters, largest distance (negative: minus the only distance)
type OffFam = (&'static str, Fam, Vec<Par>, f64);
fn shapes_off(th: bool) -> Vec<OffFam> {
    let m = |lo: f64, hi: f64| vec![par("m", lo, hi)];
    let mut v = vec![
        ("square", rect(0., 0., 4., 4.), vec![], 2.5),
        ("ell", ell(), vec![], 2.),
        ("uu", uu(), vec![], 2.),
        ("pyth", closed(&[(0., 0., 0.), (8., 0., 0.), (8., 6., 0.)]), vec![], 2.5),
        ("circle", circle(0., 0., 2.), vec![], 3.),
        ("stadium", stadium(), vec![], 2.),
        ("half-disc", half_disc(), vec![], 1.5),
        ("zig", zig(), vec![], 3.),
        ("dumbbell", dumbbell(), vec![], 2.5),
        ("bite", bite(), vec![], 3.),
        ("bump", bump(), vec![], 2.5),
        ("lens", lens(), vec![], 2.),
        ("open-arc", open(&[(0., 0., 1.), (4., 0., 0.), (4., 3., 0.)]), vec![], 3.),
    ];
    v.extend([
        ("cusp", open(&[(-4., 0., 1.), (0., 0., 1.), (4., 0., 0.)]), vec![], 3.),
        ("ess", open(&[(-4., 0., 1.), (0., 0., -1.), (4., 0., 0.)]), vec![], 3.),
        ("cap", closed(&[(0., 0., 0.), (4., 0., -0.5), (4., 4., 0.), (0., 4., 0.)]), vec![], 2.),
        ("dome", closed(&[(0., 0., 0.), (4., 0., 0.5), (4., 4., 0.), (0., 4., 0.)]), vec![], 2.5),
        ("drop", closed(&[(0., 0., 0.), (3., -4., 0.5), (3., 4., 0.)]), vec![], 2.5),
        ("two-bumps", closed(&[(0., 0., 1.), (4., 0., 1.), (8., 0., 0.), (8., 3., 0.), (0., 3., 0.)]), vec![], 2.),
    ]);
    // a moving shape at fixed distances
    let moving = [
        ("uu-width", uu().mv(3, 0, 1., 0., 0.).mv(4, 0, 1., 0., 0.), m(-1.5, 1.5), [0.5, 1.25]),
        ("dumbbell-neck", dumbbell().mv(2, 0, 0., 1., 0.).mv(3, 0, 0., 1., 0.), m(-1.25, 0.75), [0.5, 1.5]),
        ("tri-move", closed(&[(0., 0., 0.), (6., 0., 0.), (0., 4., 0.)]).mv(2, 0, 1., 0., 0.), m(-2., 8.), [0.5, 1.25]),
        ("open-turn", open(&[(0., 0., 0.), (4., 0., 0.), (4., 4., 0.)]).mv(2, 0, 1., 0., 0.), m(-4., 4.), [0.5, 1.5]),
        ("open-u", open(&[(0., 4., 0.), (0., 0., 0.), (4., 0., 0.), (4., 4., 0.)]).mv(3, 0, 0., 1., 0.), m(-3., 4.), [1., 3.]),
        ("line-arc", open(&[(0., -3., 0.), (0., 0., 0.5), (4., 0., 0.)]).mv(0, 0, 1., 0., 0.), m(-4., 4.), [0.5, 3.]),
        ("arc-line", open(&[(0., 0., 0.5), (4., 0., 0.), (6., 0., 0.)]).mv(2, 0, 0., 1., 0.), m(-4., 4.), [0.5, 3.]),
        ("arc-flip", open(&[(0., 0., -0.5), (4., 0., 0.), (6., 0., 0.)]).mv(2, 0, 0., 1., 0.), m(-4., 4.), [0.5, 3.]),
        ("arc-arc", open(&[(0., 0., 0.5), (4., 0., 0.5), (4., 4., 0.)]).mv(2, 0, 1., 0., 0.), m(-2., 4.), [0.5, 1.5]),
        ("slot", closed(&[(0., 0., 0.), (4., 0., 1.), (4., 2., 0.), (0., 2., 1.)]).mv(1, 0, 1., 0., 0.).mv(2, 0, 1., 0., 0.), m(-2., 4.), [0.5, 1.5]),
        ("bite-move", bite().mv(3, 0, 1., 0., 0.).mv(4, 0, 1., 0., 0.), m(-1.5, 1.5), [0.5, 1.5]),
    ];
    for (n, a, p, d) in moving {
        for d in d {
            v.push((n, a.clone(), p.clone(), -d));
        }
        if th {
            v.push((n, a, p, 2.5));
        }
    }
    if th {
        v.push(("arcy", arcy(), vec![], 2.));
        v.push(("wave", wave(), vec![], 3.));
    }
    v
}
/// left to the thorough tier
const SLOW: &[&str] = &[
    "tri-move@0.5-", "tri-move@1.25-", "line-arc@0.5-", "line-arc@3+", "arc-line@3+", "arc-line@3-", "arc-line@0.5-",
    "arc-flip@0.5+", "arc-flip@3+", "arc-flip@3-", "arc-arc@0.5+", "arc-arc@0.5-", "arc-arc@1.5+", "arc-arc@1.5-", "bite+/rot1", "bite+/rot4", "bite+/index", "bite+/dual",
];
type Mk = fn(String, Fam, Off, Vec<Par>) -> Scen;
fn family(mk: Mk, th: bool) -> Vec<Scen> {
    let mut v = vec![];
    for (n, a, mut pars, hi) in shapes_off(th) {
        let n = if hi < 0. { format!("{n}@{}", -hi) } else { n.to_string() };
        let n = n.as_str();
        pars.push(if hi < 0. { fixed("d", -hi) } else { par("d", 0.0625, hi) });
        pars.push(par("t", 0., 1.));
        let d = pars.len() - 2;
        for s in [1., -1.] {
            let g = if s > 0. { "+" } else { "-" };
            let base = Off { d, s, ccw: true, self_intr: false, index: false };
            v.push(mk(format!("{n}{g}"), a.clone(), base, pars.clone()));
            if matches!(n, "uu" | "stadium" | "zig" | "bite" | "open-turn") {
                v.push(mk(format!("{n}{g}/dual"), a.clone(), Off { self_intr: true, ..base }, pars.clone()));
            }
            if matches!(n, "uu" | "bite" | "half-disc") {
                v.push(mk(format!("{n}{g}/index"), a.clone(), Off { index: true, ..base }, pars.clone()));
                v.push(mk(format!("{n}{g}/cw"), a.clone().rev(), Off { ccw: false, ..base }, pars.clone()));
            }
            if matches!(n, "uu" | "bite") {
                for k in [1, 3, 4] {
                    v.push(mk(format!("{n}{g}/rot{k}"), a.clone().rot(k), base, pars.clone()));
                }
            }
        }
    }
    if !th {
        v.retain(|x| !SLOW.contains(&x.name().trim_start_matches("corner/")));
    }
    v
}
fn sound(th: bool) -> Vec<Scen> {
    family(|name, a, o, pars| Box::new(Sound { name, a, o, pars }), th)
}
fn complete(th: bool) -> Vec<Scen> {
    let mut v = family(|name, a, o, pars| Box::new(Complete { name, a, o, pars }), th);
    v.extend(family(|name, a, o, pars| Box::new(Corner { name: format!("corner/{name}"), a, o, pars }), th));
    v
}
pub fn props() -> Vec<crate::props::Prop> {
    vec![
        crate::props::Prop {
            id: "C03",
            functions: &["parallel_offset", "parallel_offset_opt", "create_raw_offset_polyline", "create_untrimmed_raw_offset_segs", "line_line_join", "line_arc_join", "arc_line_join", "arc_arc_join", "slices_from_raw_offset", "slices_from_dual_raw_offsets", "point_valid_for_offset", "visit_circle_intersects", "stitch_slices_together", "all_self_intersects_as_basic", "PlineViewData::from_slice_points"],
            bounds: "polylines of at most 12 segments from the listed families; every offset distance in the listed ranges; every position on every returned segment",
            assumptions: &["positions, angles and parameters the library compares with a tolerance are equal or differ by clearly more than it"],
            quick_budget: 150,
            scens: sound,
            findings: crate::props::no_scens,
        },
        crate::props::Prop {
            id: "C04",
            functions: &["parallel_offset", "parallel_offset_opt", "create_raw_offset_polyline", "slices_from_raw_offset", "slices_from_dual_raw_offsets", "point_valid_for_offset", "stitch_slices_together"],
            bounds: "polylines of at most 12 segments from the listed families; every offset distance in the listed ranges; every position on every input segment and around every outward corner",
            assumptions: &["positions, angles and parameters the library compares with a tolerance are equal or differ by clearly more than it"],
            quick_budget: 150,
            scens: complete,
            findings: crate::props::no_scens,
        },
    ]
}
