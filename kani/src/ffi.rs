//! C21: the C interface. `catch_unwind` is replaced by a plain call: a panic in the library is a
//! failure of the harness.
use crate::container::*;
use crate::nd::*;
use cavalier_contours::polyline::*;
use cavalier_contours_ffi::*;
#[cfg(kani)]
use std::panic::catch_unwind;
use std::ptr::{null, null_mut};

#[cfg(kani)]
fn call<F: FnOnce() -> R + std::panic::UnwindSafe, R>(f: F) -> std::thread::Result<R> {
    Ok(f())
}
fn cv(v: V) -> cavc_vertex {
    cavc_vertex { x: v.x, y: v.y, bulge: v.bulge }
}
fn vc(v: cavc_vertex) -> V {
    V { x: v.x, y: v.y, bulge: v.bulge }
}
fn handle(m: &Model) -> *mut cavc_pline {
    Box::into_raw(Box::new(cavc_pline(m.pline())))
}
unsafe fn holds(m: &Model, p: *const cavc_pline) -> bool {
    unsafe { m.same(&(*p).0) }
}
const UNSET: u32 = 77;
fn hole() -> cavc_vertex {
    cavc_vertex { x: 7., y: 7., bulge: 7. }
}

harnesses! {
    @kani::stub(catch_unwind, call),
    fn c21_create [9] {
        cases(4, |n| unsafe {
            let m = Model::of(vx, n);
            let a = [cv(m.v[0]), cv(m.v[1]), cv(m.v[2])];
            let flag = u8();
            let mut p: *const cavc_pline = null();
            let from = if n == 0 && crate::nd::flag() { null() } else { a.as_ptr() };
            ck!(cavc_pline_create(from, n as u32, flag, &mut p) == 0, "created");
            let m = Model { closed: flag != 0, ..m };
            ck!(holds(&m, p), "the polyline holds the given vertexes");
            let mut back = [hole(); 4];
            ck!(cavc_pline_get_vertex_data(p, back.as_mut_ptr()) == 0, "data read");
            let mut i = 0;
            while i < 3 {
                if i < n { ck!(eq(vc(back[i]), m.v[i]), "data reads back identical"); }
                i += 1;
            }
            ck!(eq(vc(back[n]), vc(hole())), "nothing is written after the data");
            ck!(cavc_pline_get_vertex_data(null(), back.as_mut_ptr()) == 1, "null polyline");
            cavc_pline_f(p as *mut _);
        });
    }
    @kani::stub(catch_unwind, call),
    fn c21_scalars [9] {
        cases(3, |n| unsafe {
            let m = Model::of(vx, n);
            let p = handle(&m);
            let mut c = UNSET;
            ck!(cavc_pline_get_vertex_count(p, &mut c) == 0 && c == n as u32, "vertex count");
            c = UNSET;
            ck!(cavc_pline_get_vertex_count(null(), &mut c) == 1 && c == UNSET, "null polyline");
            let mut f = 7;
            ck!(cavc_pline_get_is_closed(p, &mut f) == 0 && f == m.closed as u8, "closed flag");
            f = 7;
            ck!(cavc_pline_get_is_closed(null(), &mut f) == 1 && f == 7, "null polyline");
            let g = u8();
            ck!(cavc_pline_set_is_closed(null_mut(), g) == 1, "null polyline");
            ck!(holds(&m, p), "unchanged");
            ck!(cavc_pline_set_is_closed(p, g) == 0, "flag set");
            let m = Model { closed: g != 0, ..m };
            ck!(holds(&m, p), "only the flag changes");
            cavc_pline_f(p);
            cavc_pline_f(null_mut());
        });
    }
    @kani::stub(catch_unwind, call),
    fn c21_get_set [9] {
        cases(4, |n| cases(n + 1, |i| unsafe {
            let mut m = Model::of(vx, n);
            let p = handle(&m);
            // the last case stands for every position out of range
            let i = if i == n { let k = u32(); assume(k >= n as u32); k } else { i as u32 };
            let ok = (i as usize) < n;
            let mut v = hole();
            ck!(cavc_pline_get_vertex(null(), i, &mut v) == 1 && eq(vc(v), vc(hole())), "null polyline");
            let r = cavc_pline_get_vertex(p, i, &mut v);
            ck!(r == if ok { 0 } else { 2 }, "position out of range");
            ck!(eq(vc(v), if ok { m.v[i as usize] } else { vc(hole()) }), "vertex read");
            ck!(holds(&m, p), "reading changes nothing");
            let w = vx();
            ck!(cavc_pline_set_vertex(null_mut(), i, cv(w)) == 1, "null polyline");
            let r = cavc_pline_set_vertex(p, i, cv(w));
            ck!(r == if ok { 0 } else { 2 }, "position out of range");
            if ok { m.v[i as usize] = w; }
            ck!(holds(&m, p), "only the vertex is set");
            cavc_pline_f(p);
        }));
    }
    @kani::stub(catch_unwind, call),
    fn c21_remove [9] {
        cases(3, |n| cases(n, |i| unsafe {
            let n = n + 1;
            let m = Model::of(vx, n);
            let p = handle(&m);
            ck!(cavc_pline_remove(null_mut(), i as u32) == 1, "null polyline");
            ck!(cavc_pline_remove(p, i as u32) == 0, "vertex removed");
            let mut e = m;
            let mut k = i;
            while k + 1 < n { e.v[k] = m.v[k + 1]; k += 1; }
            e.n -= 1;
            ck!(holds(&e, p), "only the vertex is removed");
            cavc_pline_f(p);
        }));
    }
    @kani::stub(catch_unwind, call),
    fn c21_remove_outside [9] {
        cases(3, |n| cases(3, |k| unsafe {
            let m = Model::of(vx, n);
            let p = handle(&m);
            ck!(cavc_pline_remove(p, if k == 2 { u32::MAX } else { (n + k) as u32 }) == 2, "position out of range");
            ck!(holds(&m, p), "unchanged");
            cavc_pline_f(p);
        }));
    }
    @kani::stub(catch_unwind, call),
    fn c21_edit [9] {
        cases(3, |n| unsafe {
            let mut m = Model::of(vx, n);
            let p = handle(&m);
            let v = vx();
            ck!(cavc_pline_add(null_mut(), v.x, v.y, v.bulge) == 1 && cavc_pline_clear(null_mut()) == 1 && cavc_pline_reserve(null_mut(), 3) == 1, "null polyline");
            ck!(cavc_pline_add(p, v.x, v.y, v.bulge) == 0, "vertex added");
            m.v[m.n] = v;
            m.n += 1;
            ck!(holds(&m, p), "one vertex is appended");
            ck!(cavc_pline_reserve(p, 2) == 0, "space reserved");
            ck!(holds(&m, p), "reserving changes nothing");
            ck!(cavc_pline_clear(p) == 0, "cleared");
            m.n = 0;
            ck!(holds(&m, p), "no vertex is left");
            cavc_pline_f(p);
        });
    }
    @kani::stub(catch_unwind, call),
    fn c21_set_data [9] {
        cases(3, |n| cases(3, |k| unsafe {
            let m = Model::of(vx, n);
            let o = Model::of(vx, k);
            let p = handle(&m);
            let a = [cv(o.v[0]), cv(o.v[1])];
            ck!(cavc_pline_set_vertex_data(null_mut(), a.as_ptr(), k as u32) == 1, "null polyline");
            ck!(cavc_pline_set_vertex_data(p, a.as_ptr(), k as u32) == 0, "data set");
            let e = Model { closed: m.closed, ..o };
            ck!(holds(&e, p), "the polyline holds exactly the new vertexes");
            cavc_pline_f(p);
        }));
    }
    @kani::stub(catch_unwind, call),
    fn c21_clone [9] {
        cases(3, |n| unsafe {
            let m = Model::of(vx, n);
            let p = handle(&m);
            let mut q: *const cavc_pline = null();
            ck!(cavc_pline_clone(null(), &mut q) == 1 && q.is_null(), "null polyline");
            ck!(cavc_pline_clone(p, &mut q) == 0, "cloned");
            ck!(holds(&m, q) && holds(&m, p), "the clone is equal");
            ck!(cavc_pline_clear(p) == 0 && holds(&m, q), "the clone is independent");
            cavc_pline_f(p);
            ck!(holds(&m, q), "the clone outlives the original");
            cavc_pline_f(q as *mut _);
        });
    }
    @kani::stub(catch_unwind, call),
    fn c21_transform [9] {
        cases(3, |n| unsafe {
            let m = Model::of(vx, n);
            let (p, mut q) = (handle(&m), m.pline());
            let (x, y) = (co(), co());
            ck!(cavc_pline_scale(null_mut(), x) == 1 && cavc_pline_translate(null_mut(), x, y) == 1 && cavc_pline_invert_direction(null_mut()) == 1, "null polyline");
            ck!(cavc_pline_invert_direction(p) == 0, "inverted");
            q.invert_direction_mut();
            let mut e = m;
            let mut i = 0;
            while i < n { e.v[i] = q.vertex_data[i]; i += 1; }
            ck!(holds(&e, p), "inverts like the library");
            cavc_pline_f(p);
        });
    }
    // coordinates out of a few values
    @kani::stub(catch_unwind, call),
    fn c21_move [9] {
        cases(3, |n| unsafe {
            let m = Model::of(vgrid, n);
            let p = handle(&m);
            let (x, y) = (co(), co());
            ck!(cavc_pline_translate(p, x, y) == 0, "translated");
            let mut e = m;
            let mut i = 0;
            while i < n { e.v[i].x = m.v[i].x + x; e.v[i].y = m.v[i].y + y; i += 1; }
            ck!(holds(&e, p), "translates like the library");
            cavc_pline_f(p);
        });
    }
    @kani::stub(catch_unwind, call),
    fn c21_scale [9] {
        cases(2, |n| unsafe {
            let m = Model::of(vgrid, n);
            let p = handle(&m);
            let s = co();
            ck!(cavc_pline_scale(p, s) == 0, "scaled");
            let mut e = m;
            let mut i = 0;
            while i < n { e.v[i].x = s * m.v[i].x; e.v[i].y = s * m.v[i].y; i += 1; }
            ck!(holds(&e, p), "scales like the library");
            cavc_pline_f(p);
        });
    }
    @kani::stub(catch_unwind, call),
    fn c21_measures_null [9] {
        unsafe {
            let (mut a, mut b, mut c, mut d) = (7., 7., 7., 7.);
            let mut w = 7;
            ck!(cavc_pline_eval_area(null(), &mut a) == 1 && a == 7., "null polyline");
            ck!(cavc_pline_eval_path_length(null(), &mut a) == 1 && a == 7., "null polyline");
            ck!(cavc_pline_eval_wn(null(), f64(), f64(), &mut w) == 1 && w == 7, "null polyline");
            ck!(cavc_pline_eval_extents(null(), &mut a, &mut b, &mut c, &mut d) == 1 && a == 7. && b == 7. && c == 7. && d == 7., "null polyline");
            ck!(cavc_pline_remove_repeat_pos(null_mut(), f64()) == 1 && cavc_pline_remove_redundant(null_mut(), f64()) == 1, "null polyline");
            let mut ix: *const cavc_aabbindex = null();
            ck!(cavc_pline_create_aabbindex(null(), &mut ix) == 1 && ix.is_null(), "null polyline");
            ck!(cavc_pline_create_approx_aabbindex(null(), &mut ix) == 1 && ix.is_null(), "null polyline");
            ck!(cavc_aabbindex_get_extents(null(), &mut a, &mut b, &mut c, &mut d) == 1 && a == 7. && d == 7., "null index");
            ck!(cavc_pline_parallel_offset_o_init(null_mut()) == 1 && cavc_pline_boolean_o_init(null_mut()) == 1, "null options");
            let mut l: *const cavc_plinelist = null();
            ck!(cavc_pline_parallel_offset(null(), f64(), null(), &mut l) == 1 && l.is_null(), "null polyline");
            let mut n = UNSET;
            let mut q: *const cavc_pline = null();
            ck!(cavc_plinelist_get_count(null(), &mut n) == 1 && n == UNSET, "null list");
            ck!(cavc_plinelist_get_pline(null(), u32(), &mut q) == 1 && q.is_null(), "null list");
            ck!(cavc_plinelist_pop(null_mut(), &mut q) == 1 && q.is_null(), "null list");
            ck!(cavc_plinelist_take(null_mut(), u32(), &mut q) == 1 && q.is_null(), "null list");
            cavc_plinelist_f(null_mut());
            cavc_aabbindex_f(null_mut());
        }
    }
    @kani::stub(catch_unwind, call),
    fn c21_measures [9] {
        cases(2, |k| unsafe {
            let at = |x: f64, y: f64| V { x, y, bulge: 0. };
            let z = at(0., 0.);
            let m = Model { v: [at(1., 0.), at(3., 0.), at(3., 2.), z, z, z, z, z], n: 3, closed: k == 1 };
            let p = handle(&m);
            let (mut a, mut b, mut c, mut d) = (7., 7., 7., 7.);
            ck!(cavc_pline_eval_area(p, &mut a) == 0 && a == if m.closed { 2. } else { 0. }, "area");
            ck!(cavc_pline_eval_extents(p, &mut a, &mut b, &mut c, &mut d) == 0 && a == 1. && b == 0. && c == 3. && d == 2., "extents");
            let mut w = 7;
            ck!(cavc_pline_eval_wn(p, 2.5, 0.5, &mut w) == 0 && w == if m.closed { 1 } else { 0 }, "winding number");
            cavc_pline_f(p);
        });
    }
    @kani::stub(catch_unwind, call),
    fn c21_extents_short [9] {
        cases(4, |k| unsafe {
            let m = Model { closed: k > 1, ..Model::of(|| V { bulge: 0., ..vx() }, k & 1) };
            let p = handle(&m);
            let (mut a, mut b, mut c, mut d) = (7., 7., 7., 7.);
            ck!(cavc_pline_eval_extents(p, &mut a, &mut b, &mut c, &mut d) == 2 && a == 7. && b == 7. && c == 7. && d == 7., "too short for extents");
            ck!(holds(&m, p), "unchanged");
            cavc_pline_f(p);
        });
    }
    @kani::stub(catch_unwind, call),
    fn c21_options [9] {
        unsafe {
            let mut o = cavc_pline_parallel_offset_o { aabb_index: 8 as *const _, pos_equal_eps: f64(), slice_join_eps: f64(), offset_dist_eps: f64(), handle_self_intersects: u8() };
            {
                let q = cavc_pline_parallel_offset_o { aabb_index: null(), ..o };
                let i = q.to_internal();
                ck!(i.aabb_index.is_none() && i.pos_equal_eps.to_bits() == o.pos_equal_eps.to_bits() && i.slice_join_eps.to_bits() == o.slice_join_eps.to_bits() && i.offset_dist_eps.to_bits() == o.offset_dist_eps.to_bits() && i.handle_self_intersects == (o.handle_self_intersects != 0), "offset options are passed on");
            }
            ck!(cavc_pline_parallel_offset_o_init(&mut o) == 0, "options set up");
            let d = PlineOffsetOptions::<f64>::default();
            ck!(o.aabb_index.is_null() && o.pos_equal_eps == d.pos_equal_eps && o.slice_join_eps == d.slice_join_eps && o.offset_dist_eps == d.offset_dist_eps && o.handle_self_intersects == d.handle_self_intersects as u8, "offset options are the defaults");
            let mut o = cavc_pline_boolean_o { pline1_aabb_index: 8 as *const _, pos_equal_eps: f64() };
            {
                let q = cavc_pline_boolean_o { pline1_aabb_index: null(), ..o };
                let i = q.to_internal();
                ck!(i.pline1_aabb_index.is_none() && i.pos_equal_eps.to_bits() == o.pos_equal_eps.to_bits(), "boolean options are passed on");
            }
            ck!(cavc_pline_boolean_o_init(&mut o) == 0, "options set up");
            let d = PlineBooleanOptions::<f64>::default();
            ck!(o.pline1_aabb_index.is_null() && o.pos_equal_eps == d.pos_equal_eps, "boolean options are the defaults");
        }
    }
    // a list of n polylines, each with another count of vertexes
    @kani::stub(catch_unwind, call),
    fn c21_list_get [9] {
        cases(3, |n| cases(n + 1, |i| unsafe {
            let (a, b) = (Model::of(vx, 1), Model::of(vx, 2));
            let mut l = cavc_plinelist(Vec::new());
            if n > 0 { l.0.push(handle(&a)) }
            if n > 1 { l.0.push(handle(&b)) }
            let l = Box::into_raw(Box::new(l));
            let mut c = UNSET;
            ck!(cavc_plinelist_get_count(l, &mut c) == 0 && c == n as u32, "count");
            let ok = i < n;
            let i = if i == n { let k = u32(); assume(k >= n as u32); k } else { i as u32 };
            let mut q: *const cavc_pline = null();
            let r = cavc_plinelist_get_pline(l, i, &mut q);
            ck!(r == if ok { 0 } else { 2 } && q.is_null() != ok, "position out of range");
            if ok { ck!(if i == 0 { holds(&a, q) } else { holds(&b, q) }, "the polyline at the position"); }
            ck!(cavc_plinelist_get_count(l, &mut c) == 0 && c == n as u32, "looking up keeps the polyline in the list");
            cavc_plinelist_f(l);
        }));
    }
    @kani::stub(catch_unwind, call),
    fn c21_list_take [9] {
        cases(3, |n| cases(n + 1, |i| unsafe {
            let (a, b) = (Model::of(vx, 1), Model::of(vx, 2));
            let mut l = cavc_plinelist(Vec::new());
            if n > 0 { l.0.push(handle(&a)) }
            if n > 1 { l.0.push(handle(&b)) }
            let ok = i < n;
            let mut q: *const cavc_pline = null();
            let r = cavc_plinelist_take(&mut l, i as u32, &mut q);
            ck!(r == if ok { 0 } else { 2 } && q.is_null() != ok, "position out of range");
            ck!(l.0.len() == n - ok as usize, "taking removes the polyline");
            if ok {
                ck!(if i == 0 { holds(&a, q) } else { holds(&b, q) }, "the polyline taken");
                cavc_pline_f(q as *mut _);
            }
            if l.0.len() == 1 { ck!(if n == 1 || i == 1 { holds(&a, l.0[0]) } else { holds(&b, l.0[0]) }, "the others stay"); }
            for &q in &l.0 { cavc_pline_f(q) }
            std::mem::take(&mut l.0);
        }));
    }
    // several polylines are left: they keep their order
    @kani::stub(catch_unwind, call),
    fn c21_list_order [9] {
        unsafe {
            let new = || Box::into_raw(Box::new(cavc_pline(Polyline::new())));
            let (a, b, c) = (new(), new(), new());
            let mut l = cavc_plinelist(Vec::new());
            l.0.push(a);
            l.0.push(b);
            l.0.push(c);
            let mut q: *const cavc_pline = null();
            ck!(cavc_plinelist_take(&mut l, 0, &mut q) == 0 && q == a as *const _, "the polyline at the position is taken");
            ck!(l.0.len() == 2 && l.0[0] == b && l.0[1] == c, "the others stay in order");
            cavc_pline_f(a);
            cavc_pline_f(b);
            cavc_pline_f(c);
            std::mem::take(&mut l.0);
        }
    }
    @kani::stub(catch_unwind, call),
    fn c21_list_pop [9] {
        cases(3, |n| unsafe {
            let (a, b) = (Model::of(vx, 1), Model::of(vx, 2));
            let mut l = cavc_plinelist(Vec::new());
            if n > 0 { l.0.push(handle(&a)) }
            if n > 1 { l.0.push(handle(&b)) }
            let mut k = n;
            while k > 0 {
                k -= 1;
                let mut q: *const cavc_pline = null();
                ck!(cavc_plinelist_pop(&mut l, &mut q) == 0 && l.0.len() == k, "one polyline is popped");
                ck!(if k == 0 { holds(&a, q) } else { holds(&b, q) }, "the last polyline is popped");
                cavc_pline_f(q as *mut _);
            }
            let mut q: *const cavc_pline = null();
            ck!(cavc_plinelist_pop(&mut l, &mut q) == 2 && q.is_null(), "the empty list has nothing to pop");
            std::mem::take(&mut l.0);
        });
    }
    // freed with the polylines left in it: checked for leaks, and for a second release of one taken
    @kani::stub(catch_unwind, call),
    fn c21_list_free [9] {
        cases(3, |n| unsafe {
            let m = Model::of(vx, 1);
            let mut l = cavc_plinelist(Vec::new());
            let mut i = 0;
            while i < n { l.0.push(handle(&m)); i += 1; }
            let l = Box::into_raw(Box::new(l));
            if n > 0 && flag() {
                let mut q: *const cavc_pline = null();
                ck!(cavc_plinelist_take(l, 0, &mut q) == 0, "taken");
                cavc_plinelist_f(l);
                ck!(holds(&m, q), "a polyline taken out outlives the list");
                cavc_pline_f(q as *mut _);
            } else {
                cavc_plinelist_f(l);
            }
        });
    }
    // refused before anything is computed
    @kani::stub(catch_unwind, call),
    fn c21_boolean_invalid [9] {
        cases(4, |k| unsafe {
            let (m, o) = (Model { closed: false, ..Model::of(vx, 0) }, Model { closed: false, ..Model::of(vx, 1) });
            let (p, q) = (handle(&m), handle(&o));
            let op = u32();
            assume(k > 0 || op > 3);
            let (a, b) = (if k & 1 == 0 { p } else { null_mut() }, if k & 2 == 0 { q } else { null_mut() });
            let (mut s, mut t): (*const cavc_plinelist, *const cavc_plinelist) = (null(), null());
            let r = cavc_pline_boolean(a, b, op, null(), &mut s, &mut t);
            ck!(r == if k > 0 { 1 } else { 2 }, "null polyline or unknown operation");
            ck!(s.is_null() && t.is_null(), "no list is written");
            cavc_pline_f(p);
            cavc_pline_f(q);
        });
    }
    // polylines without an area: both lists are empty
    @kani::stub(catch_unwind, call),
    fn c21_boolean_no_area [9] {
        cases(4, |op| unsafe {
            let (m, o) = (Model { closed: false, ..Model::of(vx, 0) }, Model { closed: false, ..Model::of(vx, 1) });
            let (p, q) = (handle(&m), handle(&o));
            let (mut s, mut t): (*const cavc_plinelist, *const cavc_plinelist) = (null(), null());
            ck!(cavc_pline_boolean(p, q, op as u32, null(), &mut s, &mut t) == 0, "done");
            let mut c = UNSET;
            ck!(cavc_plinelist_get_count(s, &mut c) == 0 && c == 0, "no positive polylines");
            c = UNSET;
            ck!(cavc_plinelist_get_count(t, &mut c) == 0 && c == 0, "no negative polylines");
            cavc_plinelist_f(s as *mut _);
            cavc_plinelist_f(t as *mut _);
            cavc_pline_f(p);
            cavc_pline_f(q);
        });
    }
}
