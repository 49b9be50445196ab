//! C19: the polyline as a container, compared with a plain array and a flag. Every harness starts
//! from an arbitrary polyline of at most MAX vertexes, which is every state a history can reach.
use crate::nd::*;
use cavalier_contours::polyline::*;

pub type V = PlineVertex<f64>;
pub const MAX: usize = 3;
/// equal bit for bit
pub fn eq(a: V, b: V) -> bool {
    a.x.to_bits() == b.x.to_bits() && a.y.to_bits() == b.y.to_bits() && a.bulge.to_bits() == b.bulge.to_bits()
}
/// an index below n (n <= 8), each value on a path of its own
#[inline(always)]
pub fn cases(n: usize, f: impl Fn(usize)) {
    let i = below(n);
    if i == 0 {
        f(0)
    } else if i == 1 {
        f(1)
    } else if i == 2 {
        f(2)
    } else if i == 3 {
        f(3)
    } else if i == 4 {
        f(4)
    } else if i == 5 {
        f(5)
    } else if i == 6 {
        f(6)
    } else {
        f(7)
    }
}
pub fn vx() -> V {
    PlineVertex { x: f64(), y: f64(), bulge: f64() }
}
/// coordinates out of a few values, which the tolerances of `tol` tell apart differently
pub fn co() -> f64 {
    if flag() {
        1.
    } else if flag() {
        1.25
    } else {
        2.
    }
}
pub fn tol() -> f64 {
    if flag() {
        0.5
    } else {
        0.125
    }
}
pub fn vgrid() -> V {
    PlineVertex { x: co(), y: co(), bulge: f64() }
}
fn vgrid3() -> V {
    PlineVertex { x: co(), y: co(), bulge: co() }
}
/// list of vertexes with a length
#[derive(Copy, Clone)]
pub struct Model {
    pub v: [V; 8],
    pub n: usize,
    pub closed: bool,
}
impl Model {
    fn push(&mut self, v: V) {
        self.v[self.n] = v;
        self.n += 1;
    }
    fn insert(&mut self, i: usize, v: V) {
        let mut k = self.n;
        while k > i {
            self.v[k] = self.v[k - 1];
            k -= 1;
        }
        self.v[i] = v;
        self.n += 1;
    }
    fn remove(&mut self, i: usize) -> V {
        let r = self.v[i];
        let mut k = i;
        while k + 1 < self.n {
            self.v[k] = self.v[k + 1];
            k += 1;
        }
        self.n -= 1;
        r
    }
    pub fn of(mk: impl Fn() -> V, n: usize) -> Model {
        let mut m = Model { v: [V { x: 0., y: 0., bulge: 0. }; 8], n: 0, closed: flag() };
        while m.n < n {
            m.push(mk());
        }
        m
    }
    pub fn pline(&self) -> Polyline<f64> {
        let mut p = Polyline { vertex_data: Vec::with_capacity(self.n), is_closed: self.closed };
        let mut i = 0;
        while i < self.n {
            p.vertex_data.push(self.v[i]);
            i += 1;
        }
        p
    }
    /// the polyline holds exactly this
    pub fn same(&self, p: &Polyline<f64>) -> bool {
        let mut ok = p.vertex_data.len() == self.n && p.is_closed == self.closed;
        if ok {
            let mut i = 0;
            while i < self.n {
                ok = ok && eq(p.vertex_data[i], self.v[i]);
                i += 1;
            }
        }
        ok
    }
}
fn any(n: usize) -> (Model, Polyline<f64>) {
    let m = Model::of(vx, n);
    let p = m.pline();
    (m, p)
}

harnesses! {
    fn c19_add [9] {
        cases(MAX + 1, |n| {
        let (mut m, mut p) = any(n);
        let v = vx();
        match below(3) {
            0 => p.add(v.x, v.y, v.bulge),
            1 => p.add_vertex(v),
            _ => p.add_from_array([v.x, v.y, v.bulge]),
        }
        m.push(v);
        reached!(m.n == MAX + 1, "full");
        ck!(m.same(&p), "adding appends one vertex");
        });
    }
    fn c19_set [9] {
        cases(MAX + 1, |n| cases(n, |i| {
        let (mut m, mut p) = any(n);
        let v = vx();
        match below(4) {
            0 => { p.set(i, v.x, v.y, v.bulge); m.v[i] = v; }
            1 => { p.set_vertex(i, v); m.v[i] = v; }
            2 => { p[i] = v; m.v[i] = v; }
            _ => { p.set_last(v); m.v[m.n - 1] = v; }
        }
        reached!(m.n == MAX, "full");
        ck!(m.same(&p), "setting replaces one vertex");
        }));
    }
    fn c19_insert [9] {
        cases(MAX + 1, |n| cases(n + 1, |i| {
        let (mut m, mut p) = any(n);
        let v = vx();
                if flag() { p.insert(i, v.x, v.y, v.bulge) } else { p.insert_vertex(i, v) }
        m.insert(i, v);
        reached!(m.n == MAX + 1 && i == 0, "at the front");
        ck!(m.same(&p), "inserting shifts the following vertexes");
        }));
    }
    fn c19_remove [9] {
        cases(MAX + 1, |n| cases(n, |i| {
        let (mut m, mut p) = any(n);
        let (r, e) = if flag() { (p.remove(i), m.remove(i)) } else { (p.remove_last(), m.remove(m.n - 1)) };
        reached!(m.n == MAX - 1, "full");
        ck!(eq(r, e), "removing returns the vertex");
        ck!(m.same(&p), "removing drops one vertex");
        }));
    }
    fn c19_clear_close [9] {
        cases(MAX + 1, |n| {
        let (mut m, mut p) = any(n);
        match below(3) {
            0 => { p.clear(); m.n = 0; }
            1 => { let c = flag(); p.set_is_closed(c); m.closed = c; }
            _ => { let k = below(5); p.reserve(k); }
        }
        ck!(m.same(&p), "clear, open, close and reserve");
        });
    }
    fn c19_extend [9] {
        cases(3, |n| cases(3, |k| {
        let (mut m, mut p) = any(n);
        let o = Model::of(vx, k);
        let q = o.pline();
        if flag() { p.extend(&q) } else { p.extend_vertexes(q.iter_vertexes()) }
        let mut i = 0;
        while i < o.n { m.push(o.v[i]); i += 1; }
        reached!(m.n == 4, "both full");
        ck!(m.same(&p), "extending appends the other vertexes");
        ck!(o.same(&q), "the other polyline is unchanged");
        }));
    }
    fn c19_add_or_replace [9] {
        cases(3, |n| {
        let mut m = Model::of(vgrid, n);
        let mut p = m.pline();
        let v = vgrid();
        let eps = tol();
        if flag() { p.add_or_replace(v.x, v.y, v.bulge, eps) } else { p.add_or_replace_vertex(v, eps) }
        let mut repeat = false;
        if m.n > 0 {
            let l = m.v[m.n - 1];
            repeat = (l.x - v.x).abs() < eps && (l.y - v.y).abs() < eps;
        }
        reached!(repeat, "replaced");
        reached!(m.n > 0 && !repeat, "added");
        if repeat { m.v[m.n - 1].bulge = v.bulge } else { m.push(v) }
        ck!(m.same(&p), "a vertex at the last position only replaces the bulge");
        });
    }
    // which vertexes repeat the position before them is split into cases
    fn c19_extend_remove_repeat [9] {
        cases(2, |pat| {
            let mut m = Model::of(|| V { x: 1., y: 1., bulge: f64() }, 1);
            let mut p = m.pline();
            let mut x = 1.;
            let mut k = 0;
            let o = Model::of(|| V { x: 1., y: 1., bulge: f64() }, 1);
            let mut o = o;
            while k < 1 {
                if pat & (1 << k) != 0 { x += 1. }
                o.v[k].x = x;
                k += 1;
            }
            let q = o.pline();
            p.extend_remove_repeat(&q, 0.5);
            let mut i = 0;
            while i < o.n {
                let v = o.v[i];
                if m.n > 0 && m.v[m.n - 1].x == v.x { m.v[m.n - 1].bulge = v.bulge } else { m.push(v) }
                i += 1;
            }
            ck!(m.same(&p), "extending without repeats");
        });
    }
    fn c19_create_remove_repeat [9] {
        cases(4, |pat| {
            let mut o = Model::of(|| V { x: 1., y: 1., bulge: f64() }, 2);
            let mut k = 0;
            let mut x = 1.;
            while k < 2 {
                if pat & (1 << k) != 0 { x = 3. - x }
                o.v[k].x = x;
                k += 1;
            }
            let q = o.pline();
            let r = <Polyline<f64> as PlineCreation>::create_from_remove_repeat(&q, 0.5);
            let mut e = Model { n: 0, ..o };
            let mut i = 0;
            while i < o.n {
                let v = o.v[i];
                if e.n > 0 && e.v[e.n - 1].x == v.x { e.v[e.n - 1].bulge = v.bulge } else { e.push(v) }
                i += 1;
            }
            if e.closed && e.n >= 2 && e.v[e.n - 1].x == e.v[0].x { e.n -= 1 }
            ck!(e.same(&r), "creating without repeats");
        });
    }
    fn c19_read [9] {
        cases(MAX + 1, |n| {
        let (m, p) = any(n);
        let i = usize();
        let g = p.get(i);
        ck!(g.is_some() == (i < m.n), "reads outside of the list give nothing");
        if let Some(v) = g {
            ck!(eq(v, m.v[i]) && eq(p.at(i), v) && eq(p[i], v), "reads give the vertex");
        }
        ck!(p.vertex_count() == m.n && p.is_empty() == (m.n == 0) && p.is_closed() == m.closed, "count and flag");
        let l = p.last();
        ck!(l.is_some() == (m.n > 0), "the empty polyline has no last vertex");
        if let Some(v) = l { ck!(eq(v, m.v[m.n - 1]), "last vertex"); }
        let s = if m.n < 2 { 0 } else if m.closed { m.n } else { m.n - 1 };
        ck!(p.segment_count() == s, "segment count");
        ck!(m.same(&p), "reads change nothing");
        });
    }
    fn c19_vertex_iter [9] {
        cases(MAX + 1, |n| {
        let (m, p) = any(n);
        let (mut lo, mut hi) = (0, m.n);
        let mut it = p.iter_vertexes();
        let mut k = 0;
        while k < MAX + 2 {
            ck!(it.len() == hi - lo && it.size_hint() == (hi - lo, Some(hi - lo)), "remaining vertexes");
            let cl = it.clone();
            ck!(cl.len() == hi - lo, "a clone of the iterator is at the same place");
            let (r, e) = if flag() {
                let r = it.next();
                let e = if lo < hi { lo += 1; Some(lo - 1) } else { None };
                (r, e)
            } else {
                let r = it.next_back();
                let e = if lo < hi { hi -= 1; Some(hi) } else { None };
                (r, e)
            };
            ck!(r.is_some() == e.is_some(), "iteration ends after the last vertex");
            if let (Some(r), Some(e)) = (r, e) { ck!(eq(r, m.v[e]), "vertexes come in order"); }
            k += 1;
        }
        });
    }
    fn c19_segment_iter [9] {
        cases(MAX + 1, |n| {
        let (m, p) = any(n);
        let s = if m.n < 2 { 0 } else if m.closed { m.n } else { m.n - 1 };
        let mut it = p.iter_segments();
        let mut ix = p.iter_segment_indexes();
        let mut k = 0;
        while k < MAX + 2 {
            let left = if k < s { s - k } else { 0 };
            ck!(it.len() == left && it.size_hint() == (left, Some(left)), "remaining segments");
            ck!(ix.size_hint() == (left, Some(left)), "remaining indexes");
            let c = it.clone().next();
            let r = it.next();
            let i = ix.next();
            ck!(r.is_some() == (k < s) && i.is_some() == (k < s) && c.is_some() == (k < s), "iteration ends after the last segment");
            let j = if k + 1 < m.n { k + 1 } else { 0 };
            if let Some((a, b)) = r { ck!(eq(a, m.v[k]) && eq(b, m.v[j]), "segments join consecutive vertexes"); }
            if let Some((a, b)) = i { ck!(a == k && b == j, "indexes of consecutive vertexes"); }
            k += 1;
        }
        });
    }
    fn c19_wrap [9] {
        cases(MAX + 1, |n| if n > 0 {
        let (m, p) = any(n);
                let i = below(n);
        let j = below(n);
        let o = below(n + 1);
        ck!(p.next_wrapping_index(i) == (i + 1) % n, "next index");
        ck!(p.prev_wrapping_index(i) == (i + n - 1) % n, "previous index");
        ck!(p.fwd_wrapping_dist(i, j) == (j + n - i) % n, "forward distance");
        ck!(p.fwd_wrapping_index(i, o) == (i + o) % n, "forward index");
        ck!(p.fwd_wrapping_index(i, p.fwd_wrapping_dist(i, j)) == j, "distance leads to the index");
        ck!(p.next_wrapping_index(p.prev_wrapping_index(i)) == i, "previous then next");
        });
    }
    fn c19_create [9] {
        cases(MAX + 1, |n| {
        let (m, p) = any(n);
        let q = <Polyline<f64> as PlineCreation>::create_from(&p);
        ck!(m.same(&q), "a created copy is equal");
        let c = flag();
        let r = <Polyline<f64> as PlineCreation>::from_iter(p.iter_vertexes(), c);
        ck!(Model { closed: c, ..m }.same(&r), "created from an iterator");
        let k = below(4);
        let w = <Polyline<f64> as PlineCreation>::with_capacity(k, c);
        ck!(w.vertex_count() == 0 && w.is_closed == c, "created empty with a capacity");
        let e = <Polyline<f64> as PlineCreation>::empty();
        let (n, nc, d) = (Polyline::<f64>::new(), Polyline::<f64>::new_closed(), Polyline::<f64>::default());
        ck!(e.vertex_count() == 0 && !e.is_closed && n.vertex_count() == 0 && !n.is_closed && nc.vertex_count() == 0 && nc.is_closed && d.vertex_count() == 0 && !d.is_closed, "new polylines are empty");
        let cl = p.clone();
        ck!(m.same(&cl), "a clone is equal");
        });
    }
    fn c19_invert [9] {
        cases(MAX + 1, |n| {
        let (m, mut p) = any(n);
        p.invert_direction_mut();
        let mut e = m;
        if m.n >= 2 {
            let mut i = 0;
            while i < m.n {
                // the segment from vertex i now ends at the vertex that was i
                let k = m.n - 1 - i;
                e.v[i] = m.v[k];
                if i + 1 < m.n { e.v[i].bulge = -m.v[k - 1].bulge } else if m.closed { e.v[i].bulge = -m.v[m.n - 1].bulge } else { e.v[i].bulge = p.vertex_data[i].bulge }
                i += 1;
            }
        }
        ck!(e.same(&p), "inverting reverses positions and bulges");
        });
    }
    fn c19_fuzzy_eq [9] {
        cases(2, |n| cases(2, |k| {
        let a = Model::of(vgrid3, n);
        let b = Model::of(vgrid3, k);
        let e = tol();
        let (p, q) = (a.pline(), b.pline());
        let mut s = a.n == b.n && a.closed == b.closed;
        let mut i = 0;
        while i < 1 {
            if i < a.n && i < b.n {
                s = s && a.v[i].fuzzy_eq_eps(b.v[i], e);
            }
            i += 1;
        }
        reached!(s && a.n == 1, "equal");
        ck!(p.fuzzy_eq_eps(&q, e) == s, "polylines are equal when flag, length and all vertexes are");
        }));
    }
    fn c19_vertex [9] {
        let v = vx();
        let a = [v.x, v.y, v.bulge, 0.];
        let n = below(5);
        let r = V::from_slice(&a[..n]);
        ck!(r.is_some() == (n == 3), "a vertex is made of three numbers");
        if let Some(r) = r { ck!(eq(r, v), "vertex from numbers"); }
        let b = f64();
        ck!(eq(v.with_bulge(b), V { x: v.x, y: v.y, bulge: b }), "with another bulge");
        ck!(eq(V::from_vector2(v.pos(), b), v.with_bulge(b)), "position and bulge");
        ck!(v.bulge_is_pos() == (v.bulge > 0.) && v.bulge_is_neg() == (v.bulge < 0.) && v.bulge_is_zero() == (v.bulge.abs() < 1e-8), "sign of the bulge");
    }
}
