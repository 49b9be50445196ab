//! Intersects between two polylines and of one with itself.
use crate::explore::*;
use crate::fam::*;
use crate::geo::*;
use crate::props::intr::*;
use crate::props::path::*;
use crate::scenario;
use crate::sym::*;
use cavalier_contours::core::Control;
use cavalier_contours::core::traits::ControlFlow;
use cavalier_contours::polyline::*;

type Sg<T> = (Vx<T>, Vx<T>);

/// basic: (index, index, point); overlap: (index, index, ends)
struct Found<T> {
    pts: Vec<(usize, usize, P2<T>)>,
    over: Vec<(usize, usize, P2<T>, P2<T>)>,
}
impl<T: Dom> Found<T> {
    fn of(c: &PlineIntersectsCollection<T>) -> Found<T> {
        Found {
            pts: c.basic_intersects.iter().map(|b| (b.start_index1, b.start_index2, p2(b.point))).collect(),
            over: c.overlapping_intersects.iter().map(|b| (b.start_index1, b.start_index2, p2(b.point1), p2(b.point2))).collect(),
        }
    }
    /// equal as sets
    fn same(&self, o: &Found<T>) -> F<T> {
        let z = T::zero_tol();
        let eq = |a: &(usize, usize, P2<T>), b: &(usize, usize, P2<T>)| if a.0 == b.0 && a.1 == b.1 { pnear(a.2, b.2, z) } else { F::False };
        let eo = |a: &(usize, usize, P2<T>, P2<T>), b: &(usize, usize, P2<T>, P2<T>)| {
            if a.0 == b.0 && a.1 == b.1 { F::and(vec![pnear(a.2, b.2, z), pnear(a.3, b.3, z)]) } else { F::False }
        };
        let mut f = vec![F::bool(self.pts.len() == o.pts.len() && self.over.len() == o.over.len())];
        f.extend(self.pts.iter().map(|a| F::or(o.pts.iter().map(|b| eq(a, b)).collect())));
        f.extend(self.over.iter().map(|a| F::or(o.over.iter().map(|b| eo(a, b)).collect())));
        F::and(f)
    }
    /// reported points lie on the segments they name, overlaps run along both
    fn sound(&self, what: &str, a: &[Sg<T>], b: &[Sg<T>]) {
        let st = T::tol(1e-2);
        for (i, j, q) in &self.pts {
            T::check(&format!("{what}: indexes"), F::bool(*i < a.len() && *j < b.len()));
            if *i >= a.len() || *j >= b.len() {
                continue;
            }
            T::check(&format!("{what}: point on both segments"), F::and(vec![
                seg_dist_ge(a[*i].0, a[*i].1, *q, st).not(),
                seg_dist_ge(b[*j].0, b[*j].1, *q, st).not(),
            ]));
        }
        let before = |j: usize, x: P2<T>, y: P2<T>| F::le(d2(x, xy(b[j].0)), d2(y, xy(b[j].0)) + T::zero_tol());
        for (k, (i, j, q)) in self.pts.iter().enumerate() {
            for (i0, j0, q0) in &self.pts[..k] {
                if i0 == i && j0 == j && *j < b.len() {
                    T::check(&format!("{what}: order of two points"), before(*j, *q0, *q));
                }
            }
        }
        for (i, j, x, y) in &self.over {
            T::check(&format!("{what}: indexes"), F::bool(*i < a.len() && *j < b.len()));
            if *i >= a.len() || *j >= b.len() {
                continue;
            }
            if b.len() > 2 {
                // (the existing tests want the opposite for a polyline of two segments)
                T::check(&format!("{what}: order of the ends of an overlap"), before(*j, *x, *y));
            }
            let (u, v) = (a[*i], b[*j]);
            let mut f: Vec<F<T>> = vec![F::bool(is_line(u.0) == is_line(v.0))];
            for q in [*x, *y] {
                f.push(seg_dist_ge(u.0, u.1, q, st).not());
                f.push(seg_dist_ge(v.0, v.1, q, st).not());
            }
            if !is_line(u.0) && !is_line(v.0) {
                // the middle of the stretch, seen from the common centre
                let c = arc_center(v.0, v.1);
                let m = (x.0 + y.0 - c.0, x.1 + y.1 - c.1);
                f.push(pnear(arc_center(u.0, u.1), c, st));
                // a half turn has no middle direction
                let h = d2(m, c);
                f.push(F::or(vec![F::lt(h, st), F::and(vec![in_cone(u.0, u.1, m), in_cone(v.0, v.1, m)])]));
            }
            T::check(&format!("{what}: overlap on both segments"), F::and(f));
        }
    }
    fn covers(&self, b: &[Sg<T>], q: P2<T>) -> F<T> {
        let tol = T::tol(1e-2);
        let mut f: Vec<F<T>> = self.pts.iter().map(|x| pnear(x.2, q, tol)).collect();
        for (_, j, x, y) in &self.over {
            if *j < b.len() {
                f.push(Cover { pts: vec![], over: Some((*x, *y)) }.has(b[*j], q, tol));
                if b.len() == 2 {
                    f.push(Cover { pts: vec![], over: Some((*y, *x)) }.has(b[*j], q, tol));
                }
            }
        }
        F::or(f)
    }
    fn note(&self) {
        T::note(self.pts.len() as u64 * 64 + self.over.len() as u64);
    }
}
/// distance of features below which nothing happens
const GAP: f64 = 1e-2;

scenario! {
    /// the last parameter is a position on the segments of a
    Intersects { a: Fam, b: Fam } |s, p, T| {
        T::ideal(16);
        let (a, b) = (s.a.path(p), s.b.path(p));
        T::require(clear(&a, &b, T::d(GAP)));
        let t = p[p.len() - 1];
        let (pa, pb) = (pline_of(&a), pline_of(&b));
        let e = T::d(1e-8);
        let mut o = FindIntersectsOptions::<T>::default();
        o.pos_equal_eps = e;
        let r = Found::of(&pa.find_intersects_opt(&pb, &o));
        r.note();
        for idx in [pa.create_aabb_index(), pa.create_approx_aabb_index()] {
            let mut o = FindIntersectsOptions::<T>::default();
            o.pos_equal_eps = e;
            o.pline1_aabb_index = Some(&idx);
            let r2 = Found::of(&pa.find_intersects_opt(&pb, &o));
            T::check("the same with a spatial index", r.same(&r2));
        }
        let (sa, sb) = (a.segs(), b.segs());
        r.sound("intersects", &sa, &sb);
        let near = T::d(2e-6);
        for (k, x) in r.pts.iter().enumerate() {
            for y in &r.pts[..k] {
                T::check("no duplicates", pnear(x.2, y.2, near).not());
            }
            for y in &r.over {
                T::check("no duplicate at the end of an overlap", F::or(vec![pnear(x.2, y.2, near), pnear(x.2, y.3, near)]).not());
            }
        }
        for u in &sa {
            let q = seg_pt(u.0, u.1, t);
            for v in &sb {
                T::check("every common point is reported", F::implies(hit(v.0, v.1, q), r.covers(&sb, q)));
            }
        }
    }
}
struct All<T> {
    found: Found<T>,
    /// stop after so many
    stop: usize,
}
impl<T: Dom> PlineIntersectVisitor<T, Control> for All<T> {
    fn visit_basic_intr(&mut self, i: PlineBasicIntersect<T>) -> Control {
        self.found.pts.push((i.start_index1, i.start_index2, p2(i.point)));
        self.next()
    }
    fn visit_overlapping_intr(&mut self, i: PlineOverlappingIntersect<T>) -> Control {
        self.found.over.push((i.start_index1, i.start_index2, p2(i.point1), p2(i.point2)));
        self.next()
    }
}
impl<T: Dom> All<T> {
    fn next(&mut self) -> Control {
        if self.found.pts.len() + self.found.over.len() >= self.stop { Control::Break(()) } else { Control::continuing() }
    }
}
scenario! {
    /// the last parameter is a position on a segment
    SelfIntersects { a: Fam } |s, p, T| {
        T::ideal(16);
        let a = s.a.path(p);
        let sg = a.segs();
        let m = sg.len();
        let adj = |i: usize, j: usize| i + 1 == j || j + 1 == i || a.closed && (i + 1) % m == j || a.closed && (j + 1) % m == i;
        for i in 0..m {
            for j in 0..i {
                if !adj(i, j) {
                    T::require(F::and(clear_pair(sg[i], sg[j], T::d(GAP))));
                }
            }
        }
        let t = p[p.len() - 1];
        let pl = pline_of(&a);
        let run = |inc: SelfIntersectsInclude, idx, stop| {
            let mut o = PlineSelfIntersectOptions::<T>::default();
            o.pos_equal_eps = T::d(1e-8);
            o.include = inc;
            o.aabb_index = idx;
            let mut v = All { found: Found { pts: vec![], over: vec![] }, stop };
            let c = pl.visit_self_intersects_opt(&mut v, &o);
            (v.found, matches!(c, Control::Break(())))
        };
        use SelfIntersectsInclude as I;
        let many = usize::MAX;
        let (r, br) = run(I::All, None, many);
        r.note();
        T::check("visited to the end", F::bool(!br));
        let (l, _) = run(I::Local, None, many);
        let (g, _) = run(I::Global, None, many);
        for (i, j) in l.pts.iter().map(|x| (x.0, x.1)).chain(l.over.iter().map(|x| (x.0, x.1))) {
            T::check("local intersects name consecutive segments", F::bool(adj(i, j)));
        }
        for (i, j) in g.pts.iter().map(|x| (x.0, x.1)).chain(g.over.iter().map(|x| (x.0, x.1))) {
            T::check("global intersects name non-consecutive segments", F::bool(!adj(i, j) && i != j));
        }
        let mut u = Found { pts: l.pts, over: l.over };
        u.pts.extend(g.pts);
        u.over.extend(g.over);
        T::check("all are the local and the global ones", r.same(&u));
        let full = pl.create_aabb_index();
        let (r2, _) = run(I::All, Some(&full), many);
        T::check("the same with a spatial index", r.same(&r2));
        let n = r.pts.len() + r.over.len();
        for inc in [I::All, I::Local, I::Global] {
            for stop in 1..=n.min(2) {
                let (k, br) = run(inc, None, stop);
                let k = k.pts.len() + k.over.len();
                T::check("the visitor stops the visit", F::bool(k <= stop && br == (k == stop)));
            }
        }
        r.sound("self intersects", &sg, &sg);
        let (st, near) = (T::tol(1e-2), T::d(1e-4));
        for (i, j, q) in &r.pts {
            if !adj(*i, *j) {
                let z = T::d(1e-9);
                T::check("left to the segments that start there", F::and(vec![pnear(xy(sg[*i].1), *q, z), pnear(xy(sg[*j].1), *q, z)]).not());
            }
            if adj(*i, *j) && m > 2 {
                let (u, v) = if (*i + 1) % m == *j { (sg[*i], sg[*j]) } else { (sg[*j], sg[*i]) };
                // next to a tangent, a second common point comes as near to the first as one likes
                let (du, dv) = (along(u, xy(v.0)), along(v, xy(v.0)));
                let k = cross(du, dv);
                let z = (T::i(0), T::i(0));
                let turn = F::le(d2(du, z) * d2(dv, z) * T::d(1e-4), k * k);
                T::check("not only the shared end point", F::implies(turn, pnear(xy(v.0), *q, near).not()));
            }
        }
        for i in 0..m {
            let q = seg_pt(sg[i].0, sg[i].1, t);
            for j in 0..m {
                if i == j {
                    continue;
                }
                let mut ex = vec![hit(sg[j].0, sg[j].1, q)];
                if a.closed && (i + 1) % m == j || i + 1 == j {
                    ex.push(pnear(xy(sg[j].0), q, st).not());
                }
                if a.closed && (j + 1) % m == i || j + 1 == i {
                    ex.push(pnear(xy(sg[i].0), q, st).not());
                }
                T::check("every self intersect is reported", F::implies(F::and(ex), r.covers(&sg, q)));
            }
        }
    }
}
/// a vector along the segment at its end point q, to the one side or the other
fn along<T: Dom>(s: Sg<T>, q: P2<T>) -> P2<T> {
    if is_line(s.0) {
        return sub(xy(s.1), xy(s.0));
    }
    let d = sub(q, arc_center(s.0, s.1));
    (-d.1, d.0)
}
fn x(name: &str, a: Fam, b: Fam, mut pars: Vec<Par>) -> Scen {
    pars.push(par("t", 0., 1.));
    Box::new(Intersects { name: name.into(), a, b, pars })
}
fn sx(name: &str, a: Fam, mut pars: Vec<Par>) -> Scen {
    pars.push(par("t", 0., 1.));
    Box::new(SelfIntersects { name: name.into(), a, pars })
}
fn c06(_th: bool) -> Vec<Scen> {
    let sq = rect(0., 0., 4., 4.);
    let s3 = rect(0., 0., 3., 3.);
    let xy2 = || vec![par("x", -7., 7.), par("y", -7., 7.)];
    let one = || vec![par("x", -7., 7.)];
    let mv = |f: Fam| f.tr(0, 1., 0.).tr(1, 0., 1.);
    vec![
        x("squares", sq.clone(), mv(s3.clone()), xy2()),
        x("square-zig", sq.clone(), mv(zig()), xy2()),
        x("zig-square", zig(), mv(sq.clone().rev()), xy2()),
        x("u-tri", uu(), tri().tr(0, 1., 0.5), one()),
        x("square-edge", sq.clone(), s3.clone().at(4., 0.).tr(0, 0., 1.), one()),
        x("square-edge-rev", sq.clone().rev(), s3.clone().at(1., 0.).tr(0, 0., 1.), one()),
        x("square-self", sq.clone(), sq.clone().rot(2).tr(0, 1., 0.), one()),
        x("square-circle", sq.clone(), circle(0., 2., 2.).tr(0, 1., 0.), one()),
        x("circle-square", circle(0., 2., 2.), sq.clone().tr(0, 1., 0.), one()),
        x("square-circle-off", sq.clone(), circle(0., 1.5, 2.5).tr(0, 1., 0.), one()),
        x("circles", circle(0., 0., 2.), circle(0., 0., 2.).rev().tr(0, 1., 0.), one()),
        x("circles-up", circle(0., 0., 2.), circle(0., 0., 1.).tr(0, 0., 1.), one()),
        x("circles-oblique", circle(0., 0., 2.), circle(0., 0., 3.).tr(0, 0.6, 0.8), one()),
        x("stadium-arcy", stadium(), arcy().tr(0, 1., 0.), one()),
        x("stadiums", stadium(), stadium().rev().tr(0, 1., 0.), one()),
        x("wave-line", wave(), open(&[(-6., -1., 0.), (6., 2., 0.)]).tr(0, 0., 1.), one()),
        x("wave-wave", wave(), wave().rev().tr(0, 1., 0.), one()),
        x("wave-zig", wave(), zig().tr(0, 0., 1.), one()),
    ]
}
fn c07(th: bool) -> Vec<Scen> {
    let one = || vec![par("x", -7., 7.)];
    let xy2 = || vec![par("x", -7., 7.), par("y", -7., 7.)];
    let mut v = vec![
        sx("quad", closed(&[(0., 0., 0.), (4., 0., 0.), (0., 0., 0.), (0., 4., 0.)]).mv(2, 0, 1., 0., 0.).mv(2, 1, 0., 1., 0.), xy2()),
        sx("pent", closed(&[(0., 0., 0.), (4., 0., 0.), (4., 4., 0.), (0., 0., 0.), (0., 4., 0.)]).mv(3, 0, 1., 0., 0.).mv(3, 1, 0., 1., 0.), xy2()),
        sx("open5", open(&[(0., 0., 0.), (4., 0., 0.), (4., 4., 0.), (2., 4., 0.), (0., 0., 0.)]).mv(4, 0, 1., 0., 0.).mv(4, 1, 0., 1., 0.), xy2()),
        sx("open4", open(&[(0., 0., 0.), (4., 0., 0.), (4., 4., 0.), (0., 0., 0.)]).mv(3, 0, 1., 0., 0.).mv(3, 1, 0., 1., 0.), xy2()),
        sx("spike", open(&[(0., 0., 0.), (4., 0., 0.), (0., 0., 0.)]).mv(2, 0, 1., 0., 0.).mv(2, 1, 0., 1., 0.), xy2()),
        sx("arc-line", open(&[(0., 0., 1.), (4., 0., 0.), (0., 0., 0.)]).mv(2, 0, 1., 0., 0.), one()),
        sx("arc-line-y", open(&[(0., 0., 1.), (4., 0., 0.), (1., 0., 0.)]).mv(2, 0, 0., 1., 0.), one()),
        sx("eight", closed(&[(-3., -1., 0.), (3., 1., -1.), (3., -1., 0.), (-3., 1., 1.)]).mv(1, 0, 1., 0., 0.).mv(2, 0, 1., 0., 0.), one()),
        sx("twice", twice().mv(2, 0, 1., 0., 0.), vec![par("x", -3., 3.)]),
        sx("lens", closed(&[(-2., 0., 0.), (2., 0., 0.5)]).mv(0, 0, 0., 0., 1.), vec![par("b", 0.05, 1.)]),
        sx("lens-neg", closed(&[(-2., 0., 0.), (2., 0., -0.5)]).mv(0, 0, 0., 0., 1.), vec![par("b", 0.05, 1.)]),
        sx("two-lines", closed(&[(-2., 0., 0.), (2., 0., 0.)]).mv(1, 0, 1., 0., 0.), vec![par("x", 0., 7.)]),
        sx("lens-cw", closed(&[(-2., 0., 0.), (2., 0., 0.5)]).mv(0, 0, 0., 0., 1.), vec![par("b", -1., -0.05)]),
        sx("lens-cw-neg", closed(&[(-2., 0., 0.), (2., 0., -0.5)]).mv(0, 0, 0., 0., 1.), vec![par("b", -1., -0.05)]),
        sx("loop-back", open(&[(0., 0., 0.), (4., 0., 1.), (4., 3., 0.), (0., 3., 0.)]).mv(3, 0, 0., 1., 0.).mv(2, 0, 0., 1., 0.), vec![par("y", -7., 5.)]),
    ];
    // three segments, every one of them next to the others; each start
    let b3 = [(0., 0., -1.), (0., 1., 0.), (-1., 0., 0.), (0.5, 0., -0.5), (0., 0.5, -1.), (-0.5, -0.5, -0.5), (1., -1., 1.), (1., 1., -1.)];
    for (k, b) in b3.into_iter().enumerate() {
        for r in 0..3 {
            if !th && r != k % 3 && k > 0 {
                continue;
            }
            // the third vertex moves along a line
            let f = |x: f64, y: f64, b: (f64, f64, f64)| closed(&[(0., 0., b.0), (4., 0., b.1), (x, y, b.2)]);
            v.push(sx(&format!("three{k}-x-{r}"), f(0., 2., b).mv(2, 0, 1., 0., 0.).rot(r), one()));
            v.push(sx(&format!("three{k}-y-{r}"), f(1., 0., b).mv(2, 0, 0., 1., 0.).rot(r), one()));
            let o = |x: f64, y: f64| open(&[(0., 0., b.0), (4., 0., b.1), (x, y, b.2), (-1., -1., 0.)]);
            if r == k % 3 {
                v.push(sx(&format!("three-open{k}-x"), o(0., 2.).mv(2, 0, 1., 0., 0.), one()));
                v.push(sx(&format!("three-open{k}-y"), o(1., 0.).mv(2, 0, 0., 1., 0.), one()));
            }
        }
    }
    // two segments that are not next to each other, with a common end and another crossing
    for (k, (a, b)) in [(1., 0.), (1., 0.5), (0., 1.), (0.5, -0.5), (-1., 0.)].into_iter().enumerate() {
        let w = [(0., 0., a), (4., 0., 0.), (6., 4., 0.), (-2., 4., 0.), (-1., 0., b), (4., 0., 0.), (6., -1., 0.)];
        v.push(sx(&format!("meet-end{k}"), open(&w).mv(4, 0, 0., 1., 0.), one()));
        // the other way round they meet at their starts
        if th || k < 2 {
            let mut f = open(&w).rev();
            f = f.mv(2, 0, 0., 1., 0.);
            v.push(sx(&format!("meet-start{k}"), f, one()));
        }
    }
    // two stretches that are both run through twice cross each other
    let w = [(-4., 0., 0.), (4., 0., 0.), (5., 3., 0.), (4., 0., 0.), (-4., 0., 0.), (-5., 4., 0.), (0., 4., 0.), (0., -4., 0.), (-1., -6., 0.), (0., -4., 0.), (0., 4., 0.)];
    let mut f = open(&w);
    for k in 6..11 {
        f = f.mv(k, 0, 1., 0., 0.);
    }
    v.push(sx("double-cross", f, vec![par("x", -3., 7.)]));
    // an arc that runs back over the one before it, and on
    for (k, b) in [(0, 0.5), (1, -0.5), (2, 1.)] {
        v.push(sx(&format!("back{k}"), open(&[(0., 0., b), (4., 0., -b), (0., 0., 0.), (1., 3., 0.)]).mv(3, 0, 1., 0., 0.), one()));
    }
    // two arcs or an arc and a line that are not next to each other
    for (k, (a, b)) in [(1., 1.), (1., -1.), (-1., 1.), (0.5, 0.), (0., -1.), (-0.5, 0.5), (0., 0.)].into_iter().enumerate() {
        let f = |c: bool| {
            let v = [(0., 0., a), (4., 0., 0.), (5., 5., 0.), (0., 2., b), (4., 2., 0.), (6., -3., 0.)];
            if c { closed(&v) } else { open(&v) }
        };
        for r in 0..if th { 6 } else { 1 } {
            let r = (k + r) % 6;
            v.push(sx(&format!("apart{k}-y-{r}"), f(true).mv(3, 0, 0., 1., 0.).mv(4, 0, 0., 1., 0.).rot(r), one()));
        }
        v.push(sx(&format!("apart-open{k}-x"), f(false).mv(3, 0, 1., 0., 0.).mv(4, 0, 1., 0., 0.), one()));
    }
    v
}
pub fn props() -> Vec<crate::props::Prop> {
    vec![
        crate::props::Prop {
            id: "C06",
            functions: &["find_intersects", "find_intersects_opt", "pline_seg_intr", "line_line_intr", "line_circle_intr", "circle_circle_intr", "seg_fast_approx_bounding_box", "create_approx_aabb_index", "create_aabb_index", "StaticAABB2DIndex::visit_query_with_stack"],
            bounds: "pairs of polylines of at most 8 segments, one of them moving along a line (arcs) or in the plane (lines only); every position on every segment",
            assumptions: &["vertexes lie exactly on a segment of the other polyline or at least 0.01 from it; lines, arcs and arcs are exactly tangent or miss tangency by 0.01"],
            quick_budget: 100,
            scens: c06,
            findings: crate::props::no_scens,
        },
        crate::props::Prop {
            id: "C07",
            functions: &["visit_self_intersects_opt", "visit_local_self_intersects", "visit_global_self_intersects", "pline_seg_intr"],
            bounds: "polylines of at most 10 segments, of lines and arcs of up to half a turn, with one moving vertex, bulge or side; every position on every segment",
            assumptions: &["vertexes lie exactly on a non-consecutive segment or at least 0.01 from it"],
            quick_budget: 100,
            scens: c07,
            findings: crate::props::no_scens,
        },
    ]
}
