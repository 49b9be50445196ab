//! Views of a part of a polyline.
use crate::explore::*;
use crate::fam::*;
use crate::geo::*;
use crate::props::path::*;
use crate::props::seg::*;
use crate::scenario;
use crate::sym::*;
use cavalier_contours::polyline::*;

fn tsub<T: Dom>(a: T, b: T) -> T {
    (a - b) / (T::i(1) + a * b)
}
/// the part of `a` from parameter t1 of segment i to t2 of segment j, going forwards (m: number
/// of segments from i to j), with t1 < 1 and t2 > 0
fn part<T: Dom>(a: &Path<T>, i: usize, t1: T, m: usize, t2: T) -> Path<T> {
    let sg = a.segs();
    let n = sg.len();
    let z = T::i(0);
    let mut v = vec![];
    for k in 0..=m {
        let (x, y) = sg[(i + k) % n];
        let from = if k == 0 { t1 } else { z };
        let p = if k == 0 { seg_ptw(x, y, t1) } else { xy(x) };
        let b = if is_line(x) {
            z
        } else if k == m {
            let e = x.2 * t2;
            if k == 0 { tsub(e, x.2 * from) } else { e }
        } else if k == 0 {
            tsub(x.2, x.2 * from)
        } else {
            x.2
        };
        v.push((p.0, p.1, b));
    }
    let (x, y) = sg[(i + m) % n];
    let e = seg_ptw(x, y, t2);
    v.push((e.0, e.1, z));
    Path { v, closed: false }
}
fn read<T: Dom, P: PlineSource<Num = T>>(what: &str, got: &P, want: &Path<T>, tol: T) {
    let n = want.v.len();
    T::check(&format!("{what}: open"), F::bool(!got.is_closed()));
    T::check(&format!("{what}: vertex count"), F::bool(got.vertex_count() == n));
    T::check(&format!("{what}: segment count"), F::bool(got.segment_count() + 1 == n));
    T::check(&format!("{what}: nothing past the end"), F::bool(got.get(n).is_none()));
    let p = path_of(got);
    T::check(&format!("{what}: path"), same_path(&p, want, tol));
    T::check(&format!("{what}: get reads the same"), F::bool((0..p.v.len()).all(|i| got.get(i).is_some_and(|v| {
        T::test(F::and(vec![F::eq(v.x, p.v[i].0), F::eq(v.y, p.v[i].1), F::eq(v.bulge, p.v[i].2)]))
    }))));
    let all: Vec<Vx<T>> = got.iter_vertexes().map(|v| (v.x, v.y, v.bulge)).collect();
    T::check(&format!("{what}: iteration"), same(&Path { v: all, closed: false }, &p, T::zero_tol()));
    let sg: Vec<_> = got.iter_segments().collect();
    T::check(&format!("{what}: segments"), F::and(sg.iter().enumerate().map(|(i, (a, b))| {
        if i + 1 >= p.v.len() {
            return F::False;
        }
        F::and(vec![pnear((a.x, a.y), xy(p.v[i]), T::zero_tol()), F::near(a.bulge, p.v[i].2, T::zero_tol()), pnear((b.x, b.y), xy(p.v[i + 1]), T::zero_tol())])
    }).collect()));
    let c = Polyline::create_from(got);
    T::check(&format!("{what}: copy"), same(&path_of(&c), &p, T::zero_tol()));
}
fn both<T: Dom>(pl: &Polyline<T>, data: PlineViewData<T>, want: &Path<T>, tol: T) {
    T::check("valid on its source", F::bool(matches!(data.validate_for_source(pl), ViewDataValidation::IsValid)));
    let far = T::i(1000);
    let last = pl.at(pl.fwd_wrapping_index(data.start_index, data.end_index_offset)).pos();
    let spoil: [(&str, &dyn Fn(&mut PlineViewData<T>)); 4] = [
        ("offset", &|d| d.end_index_offset = pl.vertex_count() + 1),
        ("end point", &|d| d.end_point.x = d.end_point.x + far),
        ("start", &|d| d.updated_start.y = d.updated_start.y - far),
        ("end point at a vertex", &|d| d.end_point = last),
    ];
    for (what, f) in spoil {
        let mut d = data;
        f(&mut d);
        T::check(&format!("not valid with another {what}"), F::bool(!matches!(d.validate_for_source(pl), ViewDataValidation::IsValid)));
    }
    if data.end_index_offset == 0 {
        let mut d = data;
        d.updated_end_bulge = d.updated_end_bulge + T::i(1);
        T::check("not valid with another bulge", F::bool(!matches!(d.validate_for_source(pl), ViewDataValidation::IsValid)));
    }
    read("view", &data.view(pl), want, tol);
    let mut inv = data;
    inv.inverted_direction = !inv.inverted_direction;
    read("inverted view", &inv.view(pl), &rev_path(want), tol);
    T::check("detach gives the data back", F::bool({
        let d = data.view(pl).detach();
        d.start_index == data.start_index && d.end_index_offset == data.end_index_offset && !d.inverted_direction
    }));
}
scenario! {
    /// the last two parameters are the positions on segments i and j
    ViewQ { a: Fam, what: &'static str, i: usize, j: usize } |s, p, T| {
        T::ideal(16);
        let a = s.a.path(p);
        let pl = pline_of(&a);
        let n = p.len();
        let tol = T::tol(1e-4);
        let (t1, t2) = (p[n - 2], p[n - 1]);
        let sg = a.segs();
        let m = sg.len();
        let eps = T::d(1e-8);
        let (z, one) = (T::i(0), T::i(1));
        // distances along the path are 0 or clearly more than the view validation tolerance
        let gap = T::d(0.01);
        for t in [t1, t2] {
            T::assume(F::or(vec![F::eq(t, z), F::and(vec![F::le(gap, t), F::le(t, one - gap)]), F::eq(t, one)]));
        }
        match s.what {
            "entire" => {
                let d = PlineViewData::from_entire_pline(&pl);
                both(&pl, d, &part(&a, 0, z, m - 1, one), tol);
            }
            "start" => {
                let q = seg_ptw(sg[s.i].0, sg[s.i].1, t1);
                let d = PlineViewData::from_new_start(&pl, v2x(q), s.i, eps);
                let at_end = T::test(F::eq(t1, one));
                T::note(at_end as u64 + 1);
                if !a.closed && at_end && s.i + 1 == m {
                    T::check("nothing left", F::bool(d.is_none()));
                    return;
                }
                T::check("some view", F::bool(d.is_some()));
                let Some(d) = d else { return };
                let (i, t) = if at_end { ((s.i + 1) % m, z) } else { (s.i, t1) };
                let at_start = T::test(F::eq(t, z));
                let w = if !a.closed {
                    part(&a, i, t, m - 1 - i, one)
                } else if at_start {
                    part(&a, i, z, m - 1, one)
                } else {
                    part(&a, i, t, m, t)
                };
                both(&pl, d, &w, tol);
            }
            _ => {
                if s.i == s.j {
                    T::assume(F::or(vec![F::eq(t1, t2), F::le(gap, (t1 - t2).abs())]));
                    if !a.closed {
                        T::assume(F::le(t1, t2));
                    }
                }
                let (q1, q2) = (seg_ptw(sg[s.i].0, sg[s.i].1, t1), seg_ptw(sg[s.j].0, sg[s.j].1, t2));
                let d = PlineViewData::from_slice_points(&pl, v2x(q1), s.i, v2x(q2), s.j, eps);
                // start at the beginning of a segment, end not there
                let (i, u1) = if T::test(F::eq(t1, one)) { (s.i + 1, z) } else { (s.i, t1) };
                let (j, u2) = if T::test(F::eq(t2, z)) { (s.j + m - 1, one) } else { (s.j, t2) };
                let full = |k: usize, u: T| (k % m, u);
                // coinciding points
                let same = {
                    let (k, w) = if T::test(F::eq(t2, one)) { (s.j + 1, z) } else { (s.j, t2) };
                    (if a.closed { i % m == k % m } else { i == k }) && T::test(F::eq(u1, w))
                };
                T::note(same as u64 + 1);
                if same {
                    if !a.closed {
                        T::check("nothing selected", F::bool(d.is_none()));
                        return;
                    }
                    if s.i == s.j && T::test(F::lt(t1, one)) {
                        T::check("nothing selected", F::bool(d.is_none()));
                    }
                    // otherwise once around is as good
                    if d.is_none() {
                        return;
                    }
                }
                T::check("some view", F::bool(d.is_some()));
                let Some(d) = d else { return };
                let ((i, u1), (j, u2)) = (full(i, u1), full(j, u2));
                let mut k = (j + m - i) % m;
                if k == 0 && T::test(F::le(u2, u1)) {
                    k = m;
                }
                both(&pl, d, &part(&a, i, u1, k, u2), tol);
            }
        }
    }
}
fn vq(n: String, what: &'static str, a: Fam, i: usize, j: usize, pars: Vec<Par>) -> Scen {
    Box::new(ViewQ { name: format!("{what}/{n}"), a, what, i, j, pars })
}
fn c15(th: bool) -> Vec<Scen> {
    let mut v = vec![];
    let u = |n| par(n, 0., 1.);
    for (n, f, pars) in shapes() {
        let c = f.v.len();
        if c < 2 {
            continue;
        }
        let m = if f.closed { c } else { c - 1 };
        let w = |x: Vec<Par>| {
            let mut p = pars.clone();
            p.extend(x);
            p
        };
        v.push(vq(n.into(), "entire", f.clone(), 0, 0, w(vec![fixed("t1", 0.), fixed("t2", 1.)])));
        for i in 0..m {
            if pars.is_empty() {
                v.push(vq(format!("{n}-{i}"), "start", f.clone(), i, 0, w(vec![u("t1"), fixed("t2", 1.)])));
                for j in 0..m {
                    if (!f.closed && j < i) || (!th && m > 4 && (i * 3 + j * 5) % 4 > 1) {
                        continue;
                    }
                    let arc = f.v[i].2 != 0. || f.v[j].2 != 0.;
                    if th || !arc {
                        v.push(vq(format!("{n}-{i}-{j}"), "slice", f.clone(), i, j, w(vec![u("t1"), u("t2")])));
                    }
                    if arc {
                        v.push(vq(format!("{n}-{i}-{j}-from"), "slice", f.clone(), i, j, w(vec![u("t1"), fixed("t2", 0.75)])));
                        v.push(vq(format!("{n}-{i}-{j}-to"), "slice", f.clone(), i, j, w(vec![fixed("t1", 0.25), u("t2")])));
                    }
                }
            } else {
                for t in [0.25, 0.5, 1.] {
                    if !th && (i + (t * 4.) as usize) % 2 == 1 {
                        continue;
                    }
                    v.push(vq(format!("{n}-{i}-{t}"), "start", f.clone(), i, 0, w(vec![fixed("t1", t), fixed("t2", 1.)])));
                    let j = if f.closed { (i + 1) % m } else { m - 1 };
                    v.push(vq(format!("{n}-{i}-{j}-{t}"), "slice", f.clone(), i, j, w(vec![fixed("t1", 0.125), fixed("t2", t)])));
                }
            }
        }
    }
    v
}
pub fn props() -> Vec<crate::props::Prop> {
    vec![crate::props::Prop {
        id: "C15",
        functions: &["PlineViewData::from_slice_points", "PlineViewData::from_new_start", "PlineViewData::from_entire_pline", "PlineViewData::create", "PlineViewData::create_on_single_segment", "PlineViewData::get_vertex", "PlineViewData::validate_for_source", "PlineView::{vertex_count,is_closed,get,at,detach}", "PlineCreation::create_from", "seg_split_at_point", "iter_segments"],
        bounds: "22 open and closed shapes of 2 to 8 vertexes, lines and arcs, fixed (both slice positions symbolic on every pair of line segments, one of them if either segment is an arc (thorough: both); quick: some pairs of the larger shapes) or with one moving vertex, side or bulge (fixed slice positions); view and inverted view",
        assumptions: &["slice points and vertexes coincide or are at least a hundredth of the segment apart", "compared quantities are equal or differ by at least 16 times the tolerance"],
        quick_budget: 100,
        scens: c15,
        findings: crate::props::no_scens,
    }]
}
