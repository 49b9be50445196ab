//! Queries and edits of one polyline.
use crate::explore::*;
use crate::fam::*;
use crate::geo::*;
use crate::props::seg::*;
use crate::scenario;
use crate::sym::*;
use cavalier_contours::polyline::*;

/// one polyline shape: name, family, shape parameters
pub type Shape = (&'static str, Fam, Vec<Par>);

pub fn bowtie() -> Fam {
    closed(&[(0., 0., 0.), (4., 3., 0.), (4., 0., 0.), (0., 3., 0.)])
}
/// figure eight of two arcs and crossing lines
pub fn eight() -> Fam {
    closed(&[(-3., -1., 0.), (3., 1., -1.), (3., -1., 0.), (-3., 1., 1.)])
}
/// twice around with different radii
pub fn twice() -> Fam {
    closed(&[(-2., 0., 1.), (2., 0., 1.), (-1.5, 0., 1.), (1.5, 0., 0.5)])
}
pub fn lens() -> Fam {
    closed(&[(-2., 0., 0.5), (2., 0., 0.75)])
}
pub fn moon() -> Fam {
    closed(&[(-2., 0., 1.), (2., 0., -0.5)])
}
pub fn zig() -> Fam {
    open(&[(0., 0., 0.), (3., 4., 0.), (6., 0., 0.), (6., -4., 0.)])
}
pub fn wave() -> Fam {
    open(&[(-4., 0., 1.), (0., 0., -1.), (4., 0., 0.), (4., 3., 0.5), (1., 3., 0.)])
}
/// arcs whose end points lie on the axes of their circles
pub fn fixed_shapes() -> Vec<Shape> {
    vec![
        ("square", rect(0., 0., 4., 4.), vec![]),
        ("circle", circle(0.5, -0.25, 2.), vec![]),
        ("circle-cw", circle(0.5, -0.25, 2.).rev(), vec![]),
        ("ell", ell().rot(2), vec![]),
        ("bowtie", bowtie(), vec![]),
        ("eight", eight(), vec![]),
        ("twice", twice(), vec![]),
        ("lens", lens(), vec![]),
        ("moon", moon().rev(), vec![]),
        ("stadium", stadium().rot(1), vec![]),
        ("arcy", arcy(), vec![]),
        ("arcy-cw", arcy().rev().rot(2), vec![]),
        ("zig", zig(), vec![]),
        ("wave", wave(), vec![]),
        ("wave-rev", wave().rev(), vec![]),
        ("one", open(&[(1., 2., 0.5)]), vec![]),
        ("one-closed", closed(&[(1., 2., 0.5)]), vec![]),
        ("empty", open(&[]), vec![]),
    ]
}
/// shapes with one moving vertex, bulge or side
pub fn moving_shapes() -> Vec<Shape> {
    vec![
        ("tri-apex", tri().mv(1, 0, 1., 0.5, 0.), vec![par("t", -6., 4.)]),
        ("square-v", rect(0., 0., 4., 4.).mv(2, 0, -1., -1., 0.), vec![par("t", -2., 3.)]),
        ("lens-bulge", closed(&[(-2., 0., 0.), (2., 0., 0.5)]).mv(0, 0, 0., 0., 1.), vec![par("b", 0.05, 1.)]),
        ("moon-bulge", closed(&[(-2., 0., 1.), (2., 0., 0.)]).mv(1, 0, 0., 0., -1.), vec![par("b", 0.05, 0.95)]),
        ("tab", closed(&[(0., 0., 0.), (4., 0., 0.5), (4., 4., 0.), (0., 4., 0.)]).mv(1, 0, 1., 0., 0.).mv(2, 0, 1., 0., 0.), vec![par("t", -3., 3.)]),
        ("open-bulge", open(&[(0., 0., 0.), (3., 4., 0.), (6., 0., 0.)]).mv(0, 0, 0., 0., -1.).mv(1, 0, 0., 0., 1.), vec![par("b", 0.05, 1.)]),
        ("zig-v", zig().mv(2, 0, 0.6, 0.8, 0.), vec![par("t", -3., 3.)]),
    ]
}
pub fn shapes() -> Vec<Shape> {
    let mut v = fixed_shapes();
    v.extend(moving_shapes());
    v
}
/// signed number of turns about a point off the path, from the definition: signed crossings of
/// the rightward ray by the chords, plus the signed circular segments containing the point
pub fn turns<T: Dom>(a: &Path<T>, q: P2<T>) -> i32 {
    if !a.closed || a.v.len() < 2 {
        return 0;
    }
    let z = T::i(0);
    let mut w = 0;
    for (a, b) in a.segs() {
        let (ab, bb) = (T::test(F::le(a.1, q.1)), T::test(F::le(b.1, q.1)));
        if ab != bb {
            let s = cross(sub(xy(b), xy(a)), sub(q, xy(a)));
            if ab && T::test(F::lt(z, s)) {
                w += 1;
            }
            if !ab && T::test(F::lt(s, z)) {
                w -= 1;
            }
        }
        if !is_line(a) && T::test(in_lens(a, b, q)) {
            w += if a.2 > z { 1 } else { -1 };
        }
    }
    w
}
pub fn rev_path<T: Dom>(a: &Path<T>) -> Path<T> {
    let n = a.v.len();
    let mut v = vec![];
    for k in 0..n {
        let j = n - 1 - k;
        let b = if j == 0 {
            if a.closed { -a.v[n - 1].2 } else { T::i(0) }
        } else {
            -a.v[j - 1].2
        };
        v.push((a.v[j].0, a.v[j].1, b));
    }
    Path { v, closed: a.closed }
}
pub fn rot_path<T: Dom>(a: &Path<T>, k: usize) -> Path<T> {
    let mut b = a.clone();
    b.v.rotate_left(k);
    b
}
/// vertex lists agree
pub fn same<T: Dom>(a: &Path<T>, b: &Path<T>, tol: T) -> F<T> {
    if a.v.len() != b.v.len() || a.closed != b.closed {
        return F::False;
    }
    F::and(a.v.iter().zip(&b.v).map(|(x, y)| F::and(vec![pnear(xy(*x), xy(*y), tol), F::near(x.2, y.2, tol)])).collect())
}
/// same, ignoring the bulge of the last vertex of an open path
pub fn same_path<T: Dom>(a: &Path<T>, b: &Path<T>, tol: T) -> F<T> {
    let z = |p: &Path<T>| {
        let mut p = p.clone();
        if !p.closed {
            if let Some(l) = p.v.last_mut() {
                l.2 = T::i(0);
            }
        }
        p
    };
    same(&z(a), &z(b), tol)
}

scenario! {
    /// queries on one polyline; trailing parameters depend on `what`
    PathQ { a: Fam, what: &'static str } |s, p, T| {
        let a = s.a.path(p);
        let pl = pline_of(&a);
        let n = p.len();
        let tol = T::tol(1e-6);
        match s.what {
            "winding" => {
                let q = (p[n - 2], p[n - 1]);
                T::require(dist_ge(&a, q, T::d(1e-3)));
                let w = turns(&a, q);
                T::note((w + 100) as u64);
                let got = pl.winding_number(v2x(q));
                T::check("winding number", F::bool(got == w));
            }
            "winding-sym" => {
                // reversal and start vertex
                let q = (p[n - 2], p[n - 1]);
                T::require(dist_ge(&a, q, T::d(1e-3)));
                let w = pl.winding_number(v2x(q));
                T::note((w + 100) as u64);
                let r = pline_of(&rev_path(&a)).winding_number(v2x(q));
                T::check("reversed", F::bool(r == -w));
                for k in 1..a.v.len().max(1) {
                    let r = pline_of(&rot_path(&a, k)).winding_number(v2x(q));
                    T::check("start vertex", F::bool(r == w));
                }
                let mut o = a.clone();
                o.closed = false;
                T::check("open", F::bool(pline_of(&o).winding_number(v2x(q)) == 0));
            }
            "closest" => {
                T::ideal(16);
                let q = (p[n - 2], p[n - 1]);
                for (x, y) in a.segs() {
                    if !is_line(x) {
                        T::require(F::le(T::d(0.01), d2(q, arc_center(x, y))));
                    }
                }
                let r = pl.closest_point(v2x(q), T::d(1e-8));
                T::check("some unless empty", F::bool(r.is_some() == !a.v.is_empty()));
                let Some(r) = r else { return };
                let st = T::tol(1e-2);
                let c = p2(r.seg_point);
                T::note(r.seg_start_index as u64);
                T::check("distance not negative", F::le(T::i(0), r.distance));
                T::check("distance to the point", F::near(r.distance * r.distance, d2(c, q), T::tol(1e-4)));
                if a.v.len() == 1 {
                    T::check("single vertex", pnear(c, xy(a.v[0]), tol));
                } else {
                    let sg = a.segs();
                    T::check("segment index", F::bool(r.seg_start_index < sg.len()));
                    if r.seg_start_index < sg.len() {
                        let (x, y) = sg[r.seg_start_index];
                        T::check("point on the reported segment", seg_dist_ge(x, y, c, st).not());
                    }
                    let l = r.distance - st;
                    T::check("no nearer point", F::or(vec![F::le(l, T::i(0)), dist_ge(&a, q, l)]));
                }
            }
            "area" => {
                T::ideal(16);
                let w = if a.closed && a.v.len() > 1 { area(&a) } else { T::i(0) };
                let ar = pl.area();
                T::check("area", F::near(ar, w, T::tol(1e-6)));
                let r = pline_of(&rev_path(&a)).area();
                T::check("reversed area", F::near(r, -w, T::tol(1e-6)));
                for k in 1..a.v.len().max(1) {
                    T::check("start vertex", F::near(pline_of(&rot_path(&a, k)).area(), w, T::tol(1e-6)));
                }
                let o = pl.orientation();
                if !a.closed {
                    T::check("open", F::bool(o == PlineOrientation::Open));
                } else {
                    let cw = o == PlineOrientation::Clockwise;
                    T::check("not open", F::bool(o != PlineOrientation::Open));
                    T::note(cw as u64);
                    T::check("orientation", if cw { F::le(w, T::tol(1e-6)) } else { F::le(-T::tol(1e-6), w) });
                }
            }
            "length" => {
                T::ideal(16);
                let w = if a.v.len() > 1 { length(&a) } else { T::i(0) };
                T::check("path length", F::near(pl.path_length(), w, T::tol(1e-6)));
            }
            "extents" => {
                T::ideal(16);
                let e = pl.extents();
                T::check("some with a segment", F::bool(e.is_some() == (a.v.len() > 1)));
                let Some(e) = e else { return };
                let bx = (e.min_x, e.min_y, e.max_x, e.max_y);
                T::check("sides touch", box_touch(&a, bx, T::tol(1e-4)));
                // a point of each segment
                let t = p[n - 1];
                for (x, y) in a.segs() {
                    let q = seg_pt(x, y, t);
                    T::check("contains the path", in_box(bx, q, T::tol(1e-4)));
                }
                let full = pl.create_aabb_index();
                let appr = pl.create_approx_aabb_index();
                index_check(&a, &full, t, true);
                index_check(&a, &appr, t, false);
            }
            "index-query" => {
                T::ideal(16);
                // a query box of side 1: every segment with a point in it is reported
                let t = p[n - 3];
                let (x, y) = (p[n - 2], p[n - 1]);
                let (x1, y1) = (x + T::i(1), y + T::i(1));
                for idx in [pl.create_aabb_index(), pl.create_approx_aabb_index()] {
                    let hit = idx.query(x, y, x1, y1);
                    for (k, (u, v)) in a.segs().into_iter().enumerate() {
                        T::note(hit.contains(&k) as u64 * 2 + 1);
                        if !hit.contains(&k) {
                            let q = seg_pt(u, v, t);
                            let e = T::tol(1e-6);
                            T::check("segment in the box is found", in_box((x + e, y + e, x1 - e, y1 - e), q, T::i(0)).not());
                        }
                    }
                }
            }
            "point-at" => {
                T::ideal(16);
                // target = length before segment k plus the length of the sub-arc with
                // quarter-angle parameter t of segment k
                let t = p[n - 1];
                let sg = a.segs();
                let mut before = T::i(0);
                for (k, (x, y)) in sg.iter().enumerate() {
                    let (x, y) = (*x, *y);
                    let part = if is_line(x) {
                        d2(xy(x), xy(y)).sqrt() * t
                    } else {
                        arc_r2(x, y).sqrt() * T::i(4) * (x.2.abs() * t).atan()
                    };
                    let q = seg_ptw(x, y, t);
                    match pl.find_point_at_path_length(before + part) {
                        Ok((i, r)) => {
                            T::check("point at length", pnear(p2(r), q, T::tol(1e-4)));
                            // on a vertex either neighbour will do
                            T::check("segment at length", F::or(vec![
                                F::bool(i == k),
                                F::and(vec![F::bool(i + 1 == k), pnear(q, xy(x), T::tol(1e-4))]),
                                F::and(vec![F::bool(i == k + 1), pnear(q, xy(y), T::tol(1e-4))]),
                            ]));
                        }
                        Err(_) => T::check("found", F::and(vec![F::bool(k + 1 == sg.len()), pnear(q, xy(y), T::tol(1e-4))])),
                    }
                    before = before + if is_line(x) { d2(xy(x), xy(y)).sqrt() } else { arc_r2(x, y).sqrt() * T::i(4) * x.2.abs().atan() };
                }
                match pl.find_point_at_path_length(before + t + T::d(0.01)) {
                    Ok(_) => T::check("longer than the path", F::False),
                    Err(l) => T::check("total length", F::near(l, before, T::tol(1e-6))),
                }
                match pl.find_point_at_path_length(-t) {
                    Ok((i, r)) => T::check("start", F::and(vec![F::bool(i == 0), pnear(p2(r), xy(a.v[0]), T::tol(1e-6))])),
                    Err(_) => T::check("start", F::False),
                }
            }
            "approx" => {
                T::ideal(16);
                // error distance is the last parameter, position on the arc the one before
                let e = p[n - 1];
                let t = p[n - 2];
                let r = pl.arcs_to_approx_lines(e);
                T::check("some", F::bool(r.is_some()));
                let Some(r) = r else { return };
                let r = path_of(&r);
                T::note(r.v.len() as u64);
                T::check("closed as before", F::bool(r.closed == a.closed));
                T::check("only lines", F::and(r.v.iter().enumerate().filter(|(i, _)| r.closed || i + 1 < r.v.len()).map(|(_, v)| F::eq(v.2, T::i(0))).collect()));
                // original vertexes in order; added ones on the arc between
                let tol = T::tol(1e-5);
                let mut k = 0;
                let mut at = vec![];
                for (i, v) in a.v.iter().enumerate() {
                    // skip added vertexes
                    if i > 0 {
                        let prev = a.v[i - 1];
                        while k < r.v.len() && !is_line(prev) && T::test(pnear(xy(r.v[k]), xy(*v), tol).not()) {
                            T::check("added vertex on the arc", seg_dist_ge(prev, *v, xy(r.v[k]), tol).not());
                            k += 1;
                        }
                    }
                    at.push(k);
                    T::check("vertex kept", if k < r.v.len() { pnear(xy(r.v[k]), xy(*v), tol) } else { F::False });
                    k += 1;
                }
                if a.closed && k < r.v.len() {
                    let (x, y) = *a.segs().last().unwrap();
                    for w in &r.v[k..] {
                        T::check("added vertex on the arc", F::and(vec![F::bool(!is_line(x)), seg_dist_ge(x, y, xy(*w), tol).not()]));
                    }
                } else {
                    T::check("nothing else", F::bool(k == r.v.len()));
                }
                for (i, (x, y)) in a.segs().into_iter().enumerate() {
                    if !is_line(x) {
                        // the run of lines that replaces this arc
                        let mut run: Vec<Vx<T>> = vec![];
                        let end = if i + 1 < at.len() { at[i + 1] + 1 } else { r.v.len() };
                        if at[i] < r.v.len() {
                            run.extend(&r.v[at[i]..end.min(r.v.len())]);
                        }
                        if i + 1 == at.len() {
                            run.push(r.v[0]);
                        }
                        let run = Path { v: run, closed: false };
                        T::check("arc within the error", if run.v.is_empty() { F::False } else { dist_lt(&run, seg_pt(x, y, t), e + T::tol(1e-6)) });
                    }
                }
            }
            "transform" => {
                // invert, invert twice, scale, translate
                T::ideal(16);
                let k = p[n - 1];
                let mut r = pl.clone();
                r.invert_direction_mut();
                T::check("inverted", if a.v.len() < 2 { same(&path_of(&r), &a, tol) } else { same_path(&path_of(&r), &rev_path(&a), tol) });
                r.invert_direction_mut();
                T::check("inverted twice", same_path(&path_of(&r), &a, tol));
                let mut r = pl.clone();
                r.scale_mut(k);
                let w = Path { v: a.v.iter().map(|v| (v.0 * k, v.1 * k, v.2)).collect(), closed: a.closed };
                T::check("scaled", same(&path_of(&r), &w, tol));
                let mut r = pl.clone();
                r.translate_mut(k, T::i(1) - k);
                let w = Path { v: a.v.iter().map(|v| (v.0 + k, v.1 + T::i(1) - k, v.2)).collect(), closed: a.closed };
                T::check("translated", same(&path_of(&r), &w, tol));
            }
            "rotate" => {
                T::ideal(16);
                // at a point of every segment
                let t = p[n - 1];
                let sg = a.segs();
                for (k, (x, y)) in sg.iter().enumerate() {
                    let q = seg_ptw(*x, *y, t);
                    let r = pl.rotate_start(k, v2x(q), T::d(1e-8));
                    if !a.closed {
                        T::check("open gives nothing", F::bool(r.is_none()));
                        continue;
                    }
                    T::check("some", F::bool(r.is_some()));
                    let Some(r) = r else { continue };
                    let r = path_of(&r);
                    let tol = T::tol(1e-4);
                    T::check("closed", F::bool(r.closed));
                    // expected list
                    let m = a.v.len();
                    let nx = (k + 1) % m;
                    let mut w = rot_path(&a, nx);
                    let at_start = T::test(F::and(vec![F::eq(q.0, x.0), F::eq(q.1, x.1)]));
                    let at_end = T::test(F::and(vec![F::eq(q.0, y.0), F::eq(q.1, y.1)]));
                    if at_start {
                        w = rot_path(&a, k);
                    } else if !at_end {
                        let b1 = x.2 * t;
                        let b2 = (x.2 - b1) / (T::i(1) + x.2 * b1);
                        w.v.insert(0, (q.0, q.1, b2));
                        let l = w.v.len() - 1;
                        w.v[l].2 = b1;
                    }
                    T::note(w.v.len() as u64);
                    T::check("same path from the point", same(&path_of(&pline_of(&r)), &w, tol));
                }
                T::check("index out of range", F::bool(pl.rotate_start(a.v.len(), v2x((t, t)), T::d(1e-8)).is_none()));
            }
            _ => unreachable!(),
        }
    }
}
pub fn in_box<T: Dom>(b: (T, T, T, T), q: P2<T>, e: T) -> F<T> {
    F::and(vec![F::le(b.0 - e, q.0), F::le(b.1 - e, q.1), F::le(q.0, b.2 + e), F::le(q.1, b.3 + e)])
}
fn index_check<T: Dom>(a: &Path<T>, idx: &static_aabb2d_index::StaticAABB2DIndex<T>, t: T, tight: bool) {
    let sg = a.segs();
    T::check("one box per segment", F::bool(idx.item_boxes().len() == sg.len() && idx.count() == sg.len()));
    for (k, (x, y)) in sg.into_iter().enumerate() {
        let pos = (0..idx.item_indices().len()).find(|i| idx.item_indices()[*i] == k);
        T::check("segment has an index entry", F::bool(pos.is_some()));
        let Some(i) = pos else { continue };
        let b = &idx.item_boxes()[i];
        let bx = (b.min_x, b.min_y, b.max_x, b.max_y);
        T::check("index box contains the segment", in_box(bx, seg_pt(x, y, t), T::tol(1e-4)));
        if tight {
            T::check("index box touches the segment", box_touch(&Path { v: vec![x, y], closed: false }, bx, T::tol(1e-4)));
        }
    }
}
pub fn pq(what: &'static str, s: &Shape, extra: Vec<Par>) -> Scen {
    let mut pars = s.2.clone();
    pars.extend(extra);
    Box::new(PathQ { name: format!("{what}/{}", s.0), a: s.1.clone(), what, pars })
}
fn named(mut x: Shape, n: &'static str) -> Shape {
    x.0 = n;
    x
}
fn xy_par() -> Vec<Par> {
    vec![par("px", -6., 7.), par("py", -6., 7.)]
}
fn c09(th: bool) -> Vec<Scen> {
    let mut v = vec![];
    for s in fixed_shapes() {
        v.push(pq("winding", &s, xy_par()));
        if s.1.v.len() > 1 {
            v.push(pq("winding-sym", &s, if th { xy_par() } else { vec![par("px", -6., 7.), fixed("py", 0.375)] }));
        }
    }
    for s in moving_shapes() {
        for (x, y) in [(1.25, 0.75), (-0.5, -0.625), (2.5, 2.25)].into_iter().take(if th { 3 } else { 2 }) {
            v.push(pq("winding", &s, vec![fixed("px", x), par("py", -6., 7.)]));
            v.push(pq("winding", &s, vec![par("px", -6., 7.), fixed("py", y)]));
        }
    }
    v
}
fn c10(th: bool) -> Vec<Scen> {
    let mut v = vec![];
    for s in fixed_shapes() {
        v.push(pq("closest", &s, if th { xy_par() } else { vec![par("px", -6., 7.), fixed("py", 0.375)] }));
        v.push(pq("closest", &s, vec![fixed("px", 0.75), par("py", -6., 7.)]));
        if s.1.v.iter().all(|v| v.2 == 0.) && !th {
            v.push(pq("closest", &s, xy_par()));
        }
    }
    for s in moving_shapes() {
        v.push(pq("closest", &s, vec![fixed("px", 1.25), fixed("py", 0.75)]));
        v.push(pq("closest", &s, vec![fixed("px", 6.), fixed("py", -1.)]));
    }
    v
}
fn c11(_th: bool) -> Vec<Scen> {
    let mut v = vec![];
    for s in shapes() {
        v.push(pq("area", &s, vec![]));
    }
    // arcs against the polygon of the vertexes
    let y = |lo, hi| par("y", lo, hi);
    for s in [
        ("arc-tri", closed(&[(0., 0., 1.), (4., 0., 0.), (1., 0., 0.)]).mv(2, 0, 0., 1., 0.), vec![y(-5., 5.)]),
        ("arc-tri-cw", closed(&[(0., 0., -1.), (4., 0., 0.), (1., 0., 0.)]).mv(2, 0, 0., 1., 0.), vec![y(-5., 5.)]),
        ("two-arcs", closed(&[(0., 0., 0.5), (4., 0., -0.25), (1., 0., 0.)]).mv(2, 0, 0.6, 0.8, 0.), vec![y(-5., 5.)]),
        ("last-arc", closed(&[(4., 0., 0.), (1., 0., 0.), (0., 0., 0.75)]).mv(1, 0, 0., 1., 0.), vec![y(-5., 5.)]),
        ("three-arcs", closed(&[(0., 0., 1.), (4., 0., 0.5), (4., 3., -1.)]).mv(2, 0, 1., 0., 0.).mv(1, 0, 1., 0., 0.).mv(0, 0, 1., 0., 0.), vec![y(-5., 5.)]),
        ("moved-arcs", arcy().rot(1).tr(0, 1., 0.).tr(1, 0., 1.), vec![par("x", -9., 9.), y(-9., 9.)]),
        ("quad", closed(&[(0., 0., 0.), (4., 0., 0.), (4., 4., 0.), (0., 4., 0.)]).mv(2, 0, 1., 0., 0.).mv(2, 1, 0., 1., 0.), vec![par("x", -9., 9.), y(-9., 9.)]),
        ("quad-arc", closed(&[(0., 0., 0.), (4., 0., 0.), (4., 4., 0.), (0., 4., -1.)]).mv(1, 0, 1., 0., 0.).mv(2, 1, 0., 1., 0.), vec![par("x", -9., 9.), y(-9., 9.)]),
        ("bulge-tri", closed(&[(0., 0., 0.), (4., 0., 0.), (1., 0., 0.)]).mv(0, 0, 0., 0., 1.).mv(2, 1, 0., 1., 0.), vec![par("b", 0.05, 1.), y(-3., 3.)]),
        ("bulge-tri-cw", closed(&[(0., 0., 0.), (4., 0., 0.), (1., 0., 0.)]).mv(0, 0, 0., 0., -1.).mv(2, 1, 0., 1., 0.), vec![par("b", 0.05, 1.), y(-3., 3.)]),
        ("two-bulges", closed(&[(0., 0., 0.), (4., 0., 0.), (4., 3., 0.)]).mv(0, 0, 0., 0., -1.).mv(1, 1, 0., 0., 1.), vec![par("a", 0.05, 1.), par("b", 0.05, 1.)]),
    ] {
        v.push(pq("area", &s, vec![]));
    }
    v
}
fn c12(_th: bool) -> Vec<Scen> {
    let mut v = vec![];
    for s in shapes() {
        v.push(pq("length", &s, vec![]));
    }
    for s in fixed_shapes() {
        if s.1.v.len() > 1 {
            v.push(pq("point-at", &s, vec![par("t", 0., 1.)]));
        }
    }
    for s in moving_shapes() {
        for t in [0.25, 0.5] {
            v.push(pq("point-at", &s, vec![fixed("t", t)]));
        }
    }
    v
}
pub fn c13_paths(th: bool) -> Vec<Scen> {
    let mut v = vec![];
    for s in shapes() {
        v.push(pq("extents", &s, vec![par("t", 0., 1.)]));
    }
    for s in fixed_shapes() {
        if s.1.v.len() > 1 {
            v.push(pq("index-query", &s, if th { vec![par("t", 0., 1.), par("x", -6., 6.), par("y", -6., 6.)] } else { vec![par("t", 0., 1.), par("x", -6., 6.), fixed("y", 0.375)] }));
        }
    }
    v
}
fn c17(th: bool) -> Vec<Scen> {
    let mut v = vec![];
    let es: &[f64] = if th { &[3., 0.5, 0.1, 0.02, 0.004] } else { &[3., 0.5, 0.1] };
    for s in shapes() {
        // a lone vertex has no segment to convert
        if s.1.v.len() < 2 && s.1.closed {
            continue;
        }
        for e in es {
            if s.2.is_empty() || th || *e == 3. {
                v.push(pq("approx", &s, vec![par("t", 0., 1.), fixed("e", *e)]));
            }
        }
        if s.2.is_empty() {
            for t in [0.25, 0.75] {
                v.push(pq("approx", &s, vec![fixed("t", t), par("e", if th { 0.01 } else { 0.05 }, 3.)]));
            }
        }
    }
    v
}
fn c18(th: bool) -> Vec<Scen> {
    let _ = th;
    let mut v = vec![];
    for s in shapes() {
        v.push(pq("transform", &s, vec![par("k", -3., 3.)]));
    }
    for s in fixed_shapes() {
        v.push(pq("rotate", &s, vec![par("t", 0., 1.)]));
    }
    for s in moving_shapes() {
        for t in [0., 0.25, 1.] {
            v.push(pq("rotate", &s, vec![fixed("t", t)]));
        }
    }
    let _ = named;
    v
}
pub fn props() -> Vec<crate::props::Prop> {
    let p = |id, functions, bounds, scens: fn(bool) -> Vec<Scen>| crate::props::Prop { id, functions, bounds, assumptions: &[], quick_budget: 90, scens, findings: crate::props::no_scens };
    let b = "the listed polylines (at most 8 vertexes; lines and arcs; some with one symbolic vertex, side or bulge) and all query points, positions and lengths in the listed ranges";
    vec![
        p("C09", &["winding_number"], b, c09),
        p("C10", &["closest_point", "seg_closest_point"], b, c10),
        p("C11", &["area", "orientation"], b, c11),
        p("C12", &["path_length", "find_point_at_path_length", "seg_length"], b, c12),
        p("C17", &["arcs_to_approx_lines"], b, c17),
        p("C18", &["invert_direction_mut", "scale_mut", "translate_mut", "rotate_start", "seg_split_at_point"], b, c18),
    ]
}
