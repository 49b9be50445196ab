//! Removing repeated positions and redundant vertexes.
use crate::explore::*;
use crate::fam::*;
use crate::geo::*;
use crate::props::path::*;
use crate::scenario;
use crate::sym::*;
use cavalier_contours::polyline::*;

/// point of the circle of radius r about the origin, reached from (r, 0) by bulge w
fn on_circle<T: Dom>(r: T, w: T) -> P2<T> {
    let c = cs4(w);
    (c.0 * r, c.1 * r)
}
fn tadd<T: Dom>(a: T, b: T) -> T {
    (a + b) / (T::i(1) - a * b)
}
fn tsub<T: Dom>(a: T, b: T) -> T {
    (a - b) / (T::i(1) + a * b)
}
/// vertex lists with a parameter t (s: a second one)
pub fn build<T: Dom>(k: &str, t: T, s: T) -> (Vec<Vx<T>>, bool) {
    let z = T::i(0);
    let c = |x: f64, y: f64, b: f64| (T::d(x), T::d(y), T::d(b));
    let l = |x: T, y: T| (x, y, z);
    match k {
        // an extra vertex near / along one side of a square
        "side-perp" => (vec![c(0., 0., 0.), l(T::i(2), t), c(4., 0., 0.), c(4., 4., 0.), c(0., 4., 0.)], true),
        "side-along" => (vec![c(0., 0., 0.), l(t, z), c(4., 0., 0.), c(4., 4., 0.), c(0., 4., 0.)], true),
        "side-any" => (vec![c(0., 0., 0.), l(t, s), c(4., 0., 0.), c(4., 4., 0.), c(0., 4., 0.)], true),
        "two-extra" => (vec![c(0., 0., 0.), l(t, z), l(s, z), c(4., 0., 0.), c(2., 4., 0.)], true),
        // open runs
        "run" => (vec![c(0., 0., 0.), c(1., 2., 0.), l(T::i(2) + t, T::i(4)), c(4., 8., 0.), c(4., 0., 0.)], false),
        "run-3" => (vec![c(0., 0., 0.), l(t, t), c(3., 3., 0.)], false),
        "back" => (vec![c(0., 0., 0.), c(4., 0., 0.), l(t, z)], false),
        "tail" => (vec![c(0., 0., 0.), c(0., 3., 0.), c(4., 3., 0.), l(t, T::i(3))], false),
        "line-arc" => (vec![c(0., 0., 0.), l(t, z), c(4., 0., 1.), c(4., 4., 0.), c(2., 4., 0.), c(0., 4., 0.)], true),
        // repeated positions: a vertex sliding through its neighbour
        "rep-mid" => (vec![c(0., 0., 0.), c(4., 0., 0.5), l(T::i(4) + t, t), c(4., 4., 0.), c(0., 4., 0.)], true),
        "rep-start" => (vec![l(t, -t), c(0., 0., 0.5), c(4., 0., 0.), c(4., 4., 0.)], false),
        "rep-start-closed" => (vec![l(t, -t), c(0., 0., 0.5), c(4., 0., 0.), c(4., 4., 0.)], true),
        "rep-end" => (vec![c(0., 0., 0.), c(4., 0., 0.5), c(4., 4., 0.), l(T::i(4) + t, T::i(4) - t)], false),
        "rep-wrap" => (vec![c(0., 0., 0.5), c(4., 0., 0.5), c(4., 4., 0.), l(t, t)], true),
        "rep-all" => (vec![c(1., 1., 0.5), l(T::i(1) + t, T::i(1)), l(T::i(1) + s, T::i(1))], true),
        "rep-all-open" => (vec![c(1., 1., 0.5), l(T::i(1) + t, T::i(1)), l(T::i(1) + s, T::i(1))], false),
        "rep-first2" => (vec![c(1., 1., 0.), c(1., 1., 0.5), l(T::i(2) + t, T::i(1))], false),
        "rep-first2-closed" => (vec![c(1., 1., 0.), c(1., 1., 0.5), l(T::i(2) + t, T::i(1))], true),
        "rep-two" => (vec![c(1., 1., 0.5), l(T::i(1) + t, T::i(1))], true),
        "rep-two-open" => (vec![c(1., 1., 0.5), l(T::i(1) + t, T::i(1))], false),
        "rep-three" => (vec![c(0., 0., 0.), c(0., 0., 0.), l(t, z), c(4., 0., 0.), c(4., 4., 0.)], true),
        // arcs of one circle, the middle vertex sliding along it (radius 4)
        "arc-slide" | "arc-slide-cw" => {
            let r = T::i(4);
            let b = T::q(1, 2);
            let m = on_circle(r, t);
            let e = on_circle(r, b);
            let mut v = vec![(z - r, z, z), (r, z, t), (m.0, m.1, tsub(b, t)), (e.0, e.1, z)];
            if k == "arc-slide-cw" {
                v = vec![(z - r, z, z), (e.0, e.1, -tsub(b, t)), (m.0, m.1, -t), (r, z, z)];
            }
            (v, true)
        }
        "arc-slide-open" => {
            let r = T::i(4);
            let b = T::q(1, 2);
            let m = on_circle(r, t);
            let e = on_circle(r, b);
            (vec![(r, z, t), (m.0, m.1, tsub(b, t)), (e.0, e.1, z), (z - r, z, z)], false)
        }
        // the middle vertex is the start vertex
        "arc-wrap" => {
            let r = T::i(4);
            let b = T::q(1, 2);
            let m = on_circle(r, t);
            let e = on_circle(r, b);
            (vec![(m.0, m.1, tsub(b, t)), (e.0, e.1, z), (z - r, z, z), (r, z, t)], true)
        }
        "side-wrap" => (vec![l(T::i(2), t), c(4., 0., 0.), c(4., 4., 0.), c(0., 4., 0.), c(0., 0., 0.)], true),
        // sweep of the pair up to more than half a turn
        "arc-sum" => {
            let r = T::i(4);
            let b = T::q(1, 2);
            let m = on_circle(r, b);
            let w = tadd(b, t);
            // (1 + bt) > 0, w may exceed 1
            let _ = w;
            let e = cmul(cs4(b), cs4(t));
            (vec![(r, z, b), (m.0, m.1, t), (e.0 * r, e.1 * r, z), c(0., -9., 0.)], true)
        }
        // second arc's bulge free: same circle only for one value
        "arc-bulge" => {
            let r = T::i(4);
            let (b1, b2) = (T::q(1, 4), T::q(1, 3));
            let m = on_circle(r, b1);
            let e = on_circle(r, tadd(b1, b2));
            (vec![(r, z, b1), (m.0, m.1, t), (e.0, e.1, z), (z - r, z, z)], true)
        }
        // full circle of three arcs
        "circle3" => {
            let r = T::i(4);
            let (b1, b2) = (T::q(1, 2), T::q(1, 4));
            let m = on_circle(r, b1);
            let e = cmul(cs4(b1), cs4(b2));
            // last arc closes: tan of the rest
            let s12 = tadd(b1, b2);
            let b3 = (T::i(1) - s12) / (T::i(1) + s12);
            let _ = t;
            // b1 + b2 + b3 = half turn (4 * 45 deg); append the other half as one arc
            (vec![(r, z, b1), (m.0, m.1, b2), (e.0 * r, e.1 * r, b3), (z - r, z, T::i(1))], true)
        }
        // open, doubled start, arcs that would close the circle; the end vertex slides
        "arc-open-wrap" => {
            let r = T::i(4);
            let b = T::q(1, 4);
            let (p1, p2) = (on_circle(r, b), on_circle(r, tadd(b, b)));
            let w3 = tadd(tadd(b, b), t);
            let p3 = on_circle(r, w3);
            let last = tsub(T::i(1), w3);
            (vec![(r, z, b), (r, z, b), (p1.0, p1.1, b), (p2.0, p2.1, t), (p3.0, p3.1, last)], false)
        }
        "arc-open-full" => {
            // doubled start; the last vertex carries a bulge that would close the circle
            let r = T::i(4);
            let w3 = t;
            let p3 = {
                let q = cs4(w3);
                // half a turn further
                (-q.0 * r, -q.1 * r)
            };
            (vec![(r, z, T::i(1)), (r, z, T::i(1)), (-r, z, w3), (p3.0, p3.1, tsub(T::i(1), w3))], false)
        }
        // the start vertex in the middle of four arcs of one circle
        "arc-wrap4" => {
            let r = T::i(4);
            let (k1, k2, k3) = (T::q(1, 4), T::q(1, 3), T::q(1, 2));
            let (q, m, p1, p2) = (on_circle(r, t), on_circle(r, k1), on_circle(r, k2), on_circle(r, k3));
            (vec![(m.0, m.1, tsub(k2, k1)), (p1.0, p1.1, tsub(k3, k2)), (p2.0, p2.1, z), (z, -r, z), (r, z, t), (q.0, q.1, tsub(k1, t))], true)
        }
        "one" => (vec![(t, s, T::i(1))], true),
        "none" => (vec![], false),
        "square" => (vec![c(0., 0., 0.), l(T::i(4) + t, s), c(4., 4., 0.), c(0., 4., 0.)], true),
        _ => unreachable!("{k}"),
    }
}

/// no vertex in the middle of a straight run or of two arcs of one circle which together turn
/// less than half a turn
fn nothing_redundant<T: Dom>(a: &Path<T>) {
    let m = a.v.len();
    let k = if a.closed { m } else { m.saturating_sub(2) };
    if m < 3 {
        return;
    }
    for i in 0..k {
        let (x, y, z) = (a.v[i], a.v[(i + 1) % m], a.v[(i + 2) % m]);
        if is_line(x) != is_line(y) {
            continue;
        }
        if is_line(x) {
            let (d, e) = (sub(xy(y), xy(x)), sub(xy(z), xy(y)));
            T::check("no vertex left in the middle of a straight run", F::and(vec![F::near(cross(d, e), T::i(0), T::zero_tol()), F::le(T::zero_tol(), dot(d, e))]).not());
        } else if T::test(F::le(T::i(0), x.2)) == T::test(F::le(T::i(0), y.2)) {
            let same = pnear(arc_center(x, y), arc_center(y, z), T::zero_tol());
            // tan(a) tan(b) < 1: a + b below a quarter turn, the sweep below a full turn; twice
            // that halves: tan of the sum below one
            let w = tadd(x.2, y.2);
            let small = F::and(vec![F::lt(x.2 * y.2, T::d(0.99)), F::lt(w * w, T::d(0.99))]);
            T::check("no vertex left in the middle of an arc", F::and(vec![same, small]).not());
        }
    }
}

scenario! {
    CleanQ { k: &'static str, what: &'static str } |s, p, T| {
        T::ideal(16);
        let n = p.len();
        let (v, closed) = build::<T>(s.k, p[0], if n > 2 { p[1] } else { T::d(0.5) });
        let u = p[n - 1];
        let a = Path { v, closed };
        let pl = pline_of(&a);
        let eps = T::d(1e-8);
        let tol = T::tol(1e-5);
        let zt = T::zero_tol();
        let eq = |x: Vx<T>, y: Vx<T>| T::test(F::and(vec![F::near(x.0, y.0, zt), F::near(x.1, y.1, zt)]));
        // runs of equal positions: first position, last bulge
        let mut w: Vec<Vx<T>> = vec![];
        for x in &a.v {
            match w.last_mut() {
                Some(l) if eq(*l, *x) => l.2 = x.2,
                _ => w.push(*x),
            }
        }
        if a.closed && w.len() > 1 && eq(w[0], w[w.len() - 1]) {
            w.pop();
        }
        let w = Path { v: w, closed };
        T::note(w.v.len() as u64);
        match s.what {
            "repeat" => {
                let r = pl.remove_repeat_pos(eps);
                T::check("something exactly when a position repeats", F::bool(r.is_some() == (w.v.len() < a.v.len())));
                let Some(r) = r else { return };
                let r = path_of(&r);
                T::check("closed as before", F::bool(r.closed == a.closed));
                T::check("path without repeats", same(&r, &w, tol));
            }
            _ => {
                let r = pl.remove_redundant(eps);
                T::note(r.is_some() as u64);
                let some = r.is_some();
                if w.v.len() < a.v.len() {
                    T::check("repeats are removed", F::bool(some));
                }
                let left = r.as_ref().map(path_of).unwrap_or_else(|| a.clone());
                nothing_redundant(&left);
                let Some(r) = r else { return };
                let r = path_of(&r);
                T::note(r.v.len() as u64 + 10);
                T::check("closed as before", F::bool(r.closed == a.closed));
                T::check("fewer vertexes", F::bool(r.v.len() < a.v.len()));
                T::check("not empty", F::bool(!r.v.is_empty()));
                if r.v.is_empty() {
                    return;
                }
                let m = r.v.len();
                for i in 0..m {
                    if i + 1 < m || (closed && m > 1) {
                        T::check("no repeats left", pnear(xy(r.v[i]), xy(r.v[(i + 1) % m]), zt).not());
                    }
                }
                if w.v.len() == 1 {
                    T::check("one vertex left", same_path(&r, &w, tol));
                    return;
                }
                // end points
                if !closed {
                    T::check("start kept", pnear(xy(r.v[0]), xy(w.v[0]), tol));
                    T::check("end kept", pnear(xy(r.v[m - 1]), xy(w.v[w.v.len() - 1]), tol));
                }
                // every remaining vertex is one of the path's, in order
                let mut j = 0;
                let mut at = vec![];
                let wrapped = closed && !eq(r.v[0], w.v[0]);
                let l = w.v.len();
                let off = if wrapped { (0..l).rev().find(|i| eq(r.v[0], w.v[*i])).unwrap_or(0) } else { 0 };
                let q: Vec<Vx<T>> = (0..l).map(|i| w.v[(i + off) % l]).collect();
                for x in &r.v {
                    while j < l && !eq(q[j], *x) {
                        j += 1;
                    }
                    T::check("remaining vertexes are the path's in order", F::bool(j < l));
                    if j >= l {
                        return;
                    }
                    at.push(j);
                    j += 1;
                }
                // each remaining segment is the run it stands for
                let nseg = if closed { m } else { m - 1 };
                for i in 0..nseg {
                    let (x, y) = (r.v[i], r.v[(i + 1) % m]);
                    let from = at[i];
                    let to = if i + 1 < m { at[i + 1] } else { l };
                    if to == from + 1 {
                        T::check("untouched segment", F::near(x.2, q[from].2, tol));
                        continue;
                    }
                    if is_line(q[from]) {
                        // straight run in one direction
                        T::check("run of lines stays a line", F::near(x.2, T::i(0), tol));
                        let d = sub(xy(y), xy(x));
                        for h in from..to {
                            let (g0, g1) = (q[h], q[(h + 1) % l]);
                            let e = sub(xy(g1), xy(g0));
                            T::check("only straight runs are merged", F::and(vec![F::bool(is_line(g0)), F::near(cross(d, e), T::i(0), tol), F::le(-tol, dot(d, e))]));
                        }
                    } else {
                        // arcs of one circle: bulges add up as quarter angles
                        let mut b = q[from].2;
                        let c = arc_center(q[from], q[(from + 1) % l]);
                        for h in from + 1..to {
                            let (g0, g1) = (q[h], q[(h + 1) % l]);
                            let lin = is_line(g0);
                            T::check("only arcs of one circle are merged", F::and(vec![F::bool(!lin), if lin { F::False } else { pnear(arc_center(g0, g1), c, tol) }]));
                            if lin {
                                return;
                            }
                            b = tadd(b, g0.2);
                        }
                        T::check("merged arc has the whole sweep", F::near(x.2, b, tol));
                    }
                    let _ = u;
                }
            }
        }
    }
}
fn cq(what: &'static str, k: &'static str, pars: Vec<Par>) -> Scen {
    Box::new(CleanQ { name: format!("{what}/{k}"), k, what, pars })
}
fn c16(_th: bool) -> Vec<Scen> {
    let mut v = vec![];
    let f = |a: f64, b: f64| vec![par("t", a, b), fixed("u", 0.5)];
    let g = |a: f64, b: f64, c: f64, d: f64| vec![par("t", a, b), par("s", c, d), fixed("u", 0.5)];
    let list: Vec<(&'static str, Vec<Par>)> = vec![
        ("side-perp", f(-1., 1.)),
        ("side-along", f(-2., 6.)),
        ("side-any", g(-2., 6., -1., 1.)),
        ("two-extra", g(-1., 5., -1., 5.)),
        ("run", f(-1., 1.)),
        ("run-3", f(-1., 5.)),
        ("back", f(-1., 6.)),
        ("tail", f(-2., 8.)),
        ("line-arc", f(-1., 5.)),
        ("side-wrap", f(-1., 1.)),
        ("rep-mid", f(-1., 1.)),
        ("rep-start", f(-1., 1.)),
        ("rep-start-closed", f(-1., 1.)),
        ("rep-end", f(-1., 1.)),
        ("rep-wrap", f(-1., 1.)),
        ("rep-all", g(-1., 1., -1., 1.)),
        ("rep-all-open", g(-1., 1., -1., 1.)),
        ("rep-first2", f(-2., 2.)),
        ("rep-first2-closed", f(-2., 2.)),
        ("rep-two", f(-1., 1.)),
        ("rep-two-open", f(-1., 1.)),
        ("rep-three", f(-1., 5.)),
        ("arc-slide", f(0.05, 0.45)),
        ("arc-slide-cw", f(0.05, 0.45)),
        ("arc-slide-open", f(0.05, 0.45)),
        ("arc-wrap", f(0.05, 0.45)),
        ("arc-sum", f(0.05, 0.9)),
        ("arc-bulge", f(0.1, 0.9)),
        ("circle3", f(0., 1.)),
        ("arc-open-wrap", f(0.05, 0.5)),
        ("arc-open-full", f(0.1, 0.9)),
        ("arc-wrap4", f(0.02, 0.2)),
        ("one", f(0., 1.)),
        ("none", f(0., 1.)),
        ("square", g(-1., 1., -1., 1.)),
    ];
    for (k, p) in list {
        v.push(cq("repeat", k, p.clone()));
        v.push(cq("redundant", k, p));
    }
    v
}
pub fn props() -> Vec<crate::props::Prop> {
    vec![crate::props::Prop {
        id: "C16",
        functions: &["remove_repeat_pos", "remove_redundant", "bulge_from_angle", "delta_angle"],
        bounds: "35 families of at most 6 vertexes (open and closed, lines and arcs) in which one or two vertexes or a bulge move through every position of the stated ranges, including through repeats, straight runs, doubling back and arcs of one circle; position tolerance 1e-8",
        assumptions: &["compared quantities are equal or differ by at least 16 times the tolerance"],
        quick_budget: 60,
        scens: c16,
        findings: crate::props::no_scens,
    }]
}
