//! Angle helpers, quadratics, vectors and positions relative to lines.
use crate::explore::*;
use crate::fam::*;
use crate::geo::*;
use crate::scenario;
use crate::sym::*;
use cavalier_contours::core::math::*;

const TOL: f64 = 1e-7;
fn near<T: Dom>(a: T, b: T) -> F<T> {
    F::near(a, b, T::tol(TOL))
}
fn vnear<T: Dom>(a: Vector2<T>, b: Vector2<T>) -> F<T> {
    F::and(vec![near(a.x, b.x), near(a.y, b.y)])
}
scenario! {
    /// parameters s, u: angles s and s + u + whole turns
    Turns { j: i64 } |s, p, T| {
        let (a, u) = (p[0], p[1]);
        let full = T::tau() * T::i(s.j);
        let z = T::d(1e-6);
        // u within a turn
        T::require(F::and(vec![F::le(z, u), F::le(u, T::tau() - z)]));
        let n = normalize_radians(u + full);
        T::check("normalize: same direction within a turn", near(n, u));
        let d = delta_angle(a, a + u + full);
        let half = T::pi();
        T::check("delta: least rotation", F::ite(F::le(u, half), near(d, u), near(d, u - T::tau())));
        let (x, y) = (delta_angle_signed(a, a + u + full, false), delta_angle_signed(a, a + u + full, true));
        T::check("delta signed", F::and(vec![F::or(vec![near(x, d), near(x, -d)]), F::le(T::i(0), x), near(y, -x)]));
        T::check("delta of the same direction", F::or(vec![near(delta_angle(a, a + full), T::i(0)), near(delta_angle(a, a + full).abs(), T::tau())]));
    }
}
scenario! {
    /// parameters s, w, u: start s, end s + w, tested s + u, each with whole turns
    Between { j: i64, k: i64, eps: f64 } |s, p, T| {
        let (a, w, u) = (p[0], p[1], p[2]);
        let z = T::d(s.eps * 2. + 1e-6);
        for v in [w, u] {
            T::require(F::and(vec![F::le(z, v), F::le(v, T::tau() - z)]));
        }
        T::require(F::or(vec![F::le(u + z, w), F::le(w + z, u)]));
        let (fj, fk) = (T::tau() * T::i(s.j), T::tau() * T::i(s.k));
        let want = F::le(u, w);
        let got = |r: bool| F::iff(F::bool(r), want.clone());
        let (te, en) = (a + u + fj, a + w + fk);
        if s.eps == 0. {
            T::check("between", got(angle_is_between(te, a, en)));
            T::check("within sweep", got(angle_is_within_sweep(te, a, w)));
            // the complement swept clockwise
            T::check("within clockwise sweep", F::iff(F::bool(angle_is_within_sweep(te, a, w - T::tau())), F::le(w, u)));
        } else {
            let e = T::d(s.eps);
            T::check("between", got(angle_is_between_eps(te, a, en, e)));
            T::check("within sweep", got(angle_is_within_sweep_eps(te, a, w, e)));
            T::check("within clockwise sweep", F::iff(F::bool(angle_is_within_sweep_eps(te, a, w - T::tau(), e)), F::le(w, u)));
        }
        T::check("both ends are in", F::bool(angle_is_between(a, a, en) && angle_is_between(en, a, en)));
    }
}
scenario! {
    /// just past the end: within the tolerance or not
    EndTol {} |_s, p, T| {
        let (w, d) = (p[0], p[1]);
        let e = T::d(0.125);
        let z = T::d(1e-6);
        T::require(F::or(vec![F::le(d + z, e), F::le(e + z, d)]));
        T::require(F::le(w + d, T::tau() - z));
        T::check("past the end", F::iff(F::bool(angle_is_between_eps(w + d, T::i(0), w, e)), F::le(d, e)));
        T::check("past the end of the sweep", F::iff(F::bool(angle_is_within_sweep_eps(w + d, T::i(0), w, e)), F::le(d, e)));
        T::check("past the end of the clockwise sweep", F::iff(F::bool(angle_is_within_sweep_eps(d, T::i(0), -w, e)), F::le(d, e)));
    }
}
scenario! {
    /// p: bulge
    Bulge {} |_s, p, T| {
        let b = p[0];
        let a = angle_from_bulge(b);
        T::check("there and back", near(bulge_from_angle(a), b));
        let (c, s) = cs4(b);
        T::check("the angle of the bulge", vnear(point_on_circle(T::i(1), Vector2::zero(), a), Vector2::new(c, s)));
        T::check("sign", F::and(vec![F::iff(F::lt(T::i(0), b), F::lt(T::i(0), a)), F::lt(-T::tau(), a), F::lt(a, T::tau())]));
        if !(b < T::i(0)) && !(b > T::i(1)) {
            T::check("at most half a turn", F::le(a, T::pi() + T::tol(TOL)));
        }
    }
}
scenario! {
    /// p: a, both solutions
    Quadratic {} |_s, p, T| {
        let (a, r1, r2) = (p[0], p[1], p[2]);
        let big = |r: T| F::or(vec![F::le(T::d(0.01), r), F::le(r, T::d(-0.01))]);
        T::require(F::and(vec![big(a), F::or(vec![big(r1), big(r2)])]));
        let (b, c) = (-a * (r1 + r2), a * r1 * r2);
        let q = a * (r1 - r2);
        let (x, y) = quadratic_solutions(a, b, c, q.abs());
        let e = T::tol(1e-6);
        T::check("both solutions", F::or(vec![
            F::and(vec![F::near(x, r1, e), F::near(y, r2, e)]),
            F::and(vec![F::near(x, r2, e), F::near(y, r1, e)]),
        ]));
    }
}
scenario! {
    /// two vectors
    Vectors {} |_s, p, T| {
        let (a, b) = (Vector2::new(p[0], p[1]), Vector2::new(p[2], p[3]));
        let z = T::i(0);
        T::check("dot", near(a.dot(b), p[0] * p[2] + p[1] * p[3]));
        T::check("perp dot", near(a.perp_dot(b), p[0] * p[3] - p[1] * p[2]));
        T::check("length squared", near(a.length_squared(), p[0] * p[0] + p[1] * p[1]));
        T::check("perp", F::and(vec![near(a.perp().dot(a), z), near(a.perp_dot(a.perp()), a.length_squared())]));
        T::check("sum and difference", F::and(vec![vnear(a + b, Vector2::new(p[0] + p[2], p[1] + p[3])), vnear(a - b, Vector2::new(p[0] - p[2], p[1] - p[3])), vnear(&a + &b, a + b), vnear(&a - b, a - b), vnear(a - &b, &a - &b), vnear(a + &b, &a + b)]));
        T::check("negation", vnear(-a, Vector2::new(-p[0], -p[1])));
        T::check("scale", vnear(a.scale(p[2]), Vector2::new(p[0] * p[2], p[1] * p[2])));
        T::check("distance", near(dist_squared(a, b), (a - b).length_squared()));
        T::check("midpoint", F::and(vec![vnear(midpoint(a, b).scale(T::i(2)), a + b)]));
        T::check("smaller first", { let (x, y) = min_max(p[0], p[1]); F::and(vec![F::le(x, y), near(x + y, p[0] + p[1]), near(x * y, p[0] * p[1])]) });
    }
}
scenario! {
    /// one vector that is not too short
    Unit {} |_s, p, T| {
        let a = Vector2::new(p[0], p[1]);
        T::require(F::le(T::d(0.0625), p[0] * p[0] + p[1] * p[1]));
        let (l, n, u) = (a.length(), a.normalize(), a.unit_perp());
        let one = T::i(1);
        T::check("length", F::and(vec![F::le(T::i(0), l), F::near(l * l, a.length_squared(), T::tol(1e-6))]));
        T::check("normalize", F::and(vec![near(n.length_squared(), one), near(n.perp_dot(a), T::i(0)), F::lt(T::i(0), n.dot(a))]));
        T::check("unit perp", F::and(vec![near(u.length_squared(), one), near(u.dot(a), T::i(0)), F::lt(T::i(0), a.perp_dot(u))]));
    }
}
scenario! {
    /// p: two points and a position
    OnLine {} |_s, p, T| {
        let (a, b, t) = (Vector2::new(p[0], p[1]), Vector2::new(p[2], p[3]), p[4]);
        T::require(F::le(T::d(0.0625), (a - b).length_squared()));
        let q = point_from_parametric(a, b, t);
        T::check("point", vnear(q, a + (b - a).scale(t)));
        T::check("there and back", F::near(parametric_from_point(a, b, q, T::d(1e-5)), t, T::tol(1e-6)));
    }
}
scenario! {
    /// p: segment end points and a third one
    Side {} |_s, p, T| {
        let (a, b, q) = (Vector2::new(p[0], p[1]), Vector2::new(p[2], p[3]), Vector2::new(p[4], p[5]));
        let area = (b - a).perp_dot(q - a);
        let e = T::d(0.125);
        let (z, z2) = (T::d(1e-4), T::d(1e-5));
        for v in [T::i(0), e, -e] {
            T::require(F::or(vec![F::le(area + z, v), F::le(v + z, area), F::eq(area, v)]));
        }
        let is = |b: bool, f: F<T>| F::iff(F::bool(b), f);
        let o = T::i(0);
        T::check("left", F::or(vec![near(area, o), is(is_left(a, b, q), F::lt(o, area))]));
        T::check("left or on the line", F::or(vec![near(area, o), is(is_left_or_equal(a, b, q), F::le(o, area))]));
        T::check("left or near the line", F::or(vec![near(area, -e), is(is_left_or_coincident_eps(a, b, q, e), F::lt(-e, area))]));
        T::check("right or near the line", F::or(vec![near(area, e), is(is_right_or_coincident_eps(a, b, q, e), F::lt(area, e))]));
        T::check("left or very near", is(is_left_or_coincident(a, b, q), F::le(-z2, area)));
        T::check("right or very near", is(is_right_or_coincident(a, b, q), F::le(area, z2)));
    }
}
scenario! {
    /// p: segment end, point, position on the segment
    Closest {} |_s, p, T| {
        let (a, b, q) = (Vector2::new(T::d(0.5), T::d(-0.25)), Vector2::new(p[0], p[1]), Vector2::new(p[2], p[3]));
        T::require(F::le(T::d(0.0625), (b - a).length_squared()));
        let c = line_seg_closest_point(a, b, q);
        let t = p[4];
        let other = a + (b - a).scale(t);
        T::check("no point of the segment is closer", F::le((q - c).length_squared(), (q - other).length_squared() + T::tol(1e-4)));
        T::check("on the line", F::near((b - a).perp_dot(c - a), T::i(0), T::tol(1e-6)));
        let k = (c - a).dot(b - a);
        T::check("on the segment", F::and(vec![F::le(T::tol(-1e-6), k), F::le(k, (b - a).length_squared() + T::tol(1e-6))]));
    }
}
scenario! {
    /// p: point; the angle between two points and the point at that angle
    Polar { c: (f64, f64), r: f64 } |s, p, T| {
        let (x, y) = cs4(p[0]);
        let r = T::d(s.r);
        let c = Vector2::new(T::d(s.c.0), T::d(s.c.1));
        let q = c + Vector2::new(x, y).scale(r);
        let a = angle(c, q);
        T::check("angle and back", vnear(point_on_circle(r, c, a), q));
        T::check("range", F::and(vec![F::le(-T::pi(), a), F::le(a, T::pi())]));
        let k = q.rotate_about(c, T::pi() / T::i(2));
        T::check("quarter turn", vnear(k, c + Vector2::new(-y, x).scale(r)));
        let k = Vector2::new(c.x + r, c.y).rotate_about(c, a);
        T::check("turned by the angle", vnear(k, q));
    }
}
scenario! {
    /// p: directions of start and of the point, distance of the point; sweep of less than half a turn
    Cone { w: f64, cw: bool } |s, p, T| {
        let (c, o) = (Vector2::new(T::d(0.5), T::d(-0.25)), T::i(0));
        let (x, y) = cs4(p[0]);
        let (wx, wy) = cs4(T::d(s.w));
        let st = Vector2::new(x, y);
        let en = Vector2::new(x * wx - y * wy, x * wy + y * wx);
        let (st, en) = if s.cw { (en, st) } else { (st, en) };
        let q = Vector2::new(p[1], p[2]);
        let (l, r) = if s.cw { (en.perp_dot(q), st.perp_dot(q)) } else { (st.perp_dot(q), en.perp_dot(q)) };
        let z = T::d(1e-4);
        for v in [l, r] {
            T::require(F::or(vec![F::le(z, v), F::le(v, -z)]));
        }
        let want = F::and(vec![F::lt(o, l), F::lt(r, o)]);
        T::check("in the cone", F::iff(F::bool(point_within_arc_sweep(c, c + st, c + en, s.cw, c + q, T::d(1e-5))), want));
    }
}
fn c20(_th: bool) -> Vec<Scen> {
    let mut v: Vec<Scen> = vec![];
    let n = |s: &str| s.to_string();
    for j in -3..=3 {
        v.push(Box::new(Turns { name: format!("turns/{j}"), j, pars: vec![par("s", -10., 10.), par("u", 0., 6.5)] }));
    }
    for (j, k) in [(0, 0), (1, 0), (0, 1), (-1, 0), (0, -1), (2, -2), (-3, 1), (1, 1)] {
        for eps in [0., 1e-3] {
            v.push(Box::new(Between { name: format!("between/{j},{k},{eps}"), j, k, eps, pars: vec![par("s", -10., 10.), par("w", 0., 6.5), par("u", 0., 6.5)] }));
        }
    }
    v.push(Box::new(EndTol { name: n("past-the-end"), pars: vec![par("w", 0., 6.), par("d", 0.001, 1.)] }));
    v.push(Box::new(Bulge { name: n("bulge"), pars: vec![par("b", -8., 8.)] }));
    v.push(Box::new(Quadratic { name: n("quadratic"), pars: vec![par("a", -4., 4.), par("r", -8., 8.), par("q", -8., 8.)] }));
    let xy = |s: &[&'static str], m: f64| s.iter().map(|s| par(s, -m, m)).collect::<Vec<_>>();
    v.push(Box::new(Vectors { name: n("vectors"), pars: xy(&["x", "y", "u", "v"], 50.) }));
    v.push(Box::new(Unit { name: n("unit"), pars: xy(&["x", "y"], 50.) }));
    v.push(Box::new(OnLine { name: n("on-line"), pars: xy(&["x", "y", "u", "v", "t"], 8.) }));
    v.push(Box::new(Side { name: n("side"), pars: xy(&["x", "y", "u", "v", "px", "py"], 8.) }));
    let mut q = xy(&["x", "y", "px", "py"], 8.);
    q.push(par("t", 0., 1.));
    v.push(Box::new(Closest { name: n("closest"), pars: q }));
    for (k, c, r) in [(0, (0., 0.), 1.), (1, (2.5, -1.25), 3.)] {
        v.push(Box::new(Polar { name: format!("polar/{k}"), c, r, pars: vec![par("w", -0.96, 0.96)] }));
    }
    for w in [0.125, 0.25, 0.375] {
        for cw in [false, true] {
            v.push(Box::new(Cone { name: format!("cone/{w},{cw}"), w, cw, pars: vec![par("w", -0.96, 0.96), par("x", -4., 4.), par("y", -4., 4.)] }));
        }
    }
    v
}
pub fn props() -> Vec<crate::props::Prop> {
    vec![crate::props::Prop {
        id: "C20",
        functions: &[
            "normalize_radians", "delta_angle", "delta_angle_signed", "angle_is_between(_eps)", "angle_is_within_sweep(_eps)", "bulge_from_angle", "angle_from_bulge", "quadratic_solutions", "dist_squared", "angle", "midpoint",
            "point_on_circle", "point_from_parametric", "parametric_from_point", "line_seg_closest_point", "is_left family", "point_within_arc_sweep", "Vector2 (all operations)", "min_max",
        ],
        bounds: "angles within 10 radians plus up to three turns, bulges up to 8, coefficients and solutions of quadratics within 8, coordinates within 50 (8 for positions on lines)",
        assumptions: &["values a helper compares with a tolerance differ from it by more than 1e-6 (1e-4 for the side of a line)"],
        quick_budget: 60,
        scens: c20,
        findings: crate::props::no_scens,
    }]
}
