//! Families of polylines: concrete base shapes whose vertices move linearly with symbolic
//! parameters.
use crate::geo::*;
use crate::sym::*;
use crate::z::Q;
use cavalier_contours::polyline::*;

#[derive(Clone, Debug)]
pub struct Move {
    pub vertex: Option<usize>,
    pub param: usize,
    pub d: (f64, f64, f64),
}
#[derive(Clone, Debug)]
pub struct Fam {
    pub v: Vec<(f64, f64, f64)>,
    pub closed: bool,
    pub mv: Vec<Move>,
}
pub fn closed(v: &[(f64, f64, f64)]) -> Fam {
    Fam {
        v: v.to_vec(),
        closed: true,
        mv: vec![],
    }
}
pub fn open(v: &[(f64, f64, f64)]) -> Fam {
    Fam {
        v: v.to_vec(),
        closed: false,
        mv: vec![],
    }
}
impl Fam {
    /// translate the whole shape along (dx, dy) * parameter
    pub fn tr(mut self, param: usize, dx: f64, dy: f64) -> Fam {
        self.mv.push(Move {
            vertex: None,
            param,
            d: (dx, dy, 0.0),
        });
        self
    }
    /// move one vertex
    pub fn mv(mut self, vertex: usize, param: usize, dx: f64, dy: f64, db: f64) -> Fam {
        self.mv.push(Move {
            vertex: Some(vertex),
            param,
            d: (dx, dy, db),
        });
        self
    }
    /// reverse the direction of the base shape (before any moves are attached)
    pub fn rev(mut self) -> Fam {
        assert!(self.mv.is_empty());
        let n = self.v.len();
        let o = self.v.clone();
        for i in 0..n {
            let j = n - 1 - i;
            let prev = if j == 0 { n - 1 } else { j - 1 };
            let b = if j == 0 && !self.closed { 0.0 } else { -o[prev].2 };
            self.v[i] = (o[j].0, o[j].1, b);
        }
        self
    }
    /// start at another vertex (closed shapes)
    pub fn rot(mut self, k: usize) -> Fam {
        assert!(self.closed);
        let n = self.v.len();
        self.v.rotate_left(k);
        for m in &mut self.mv {
            m.vertex = m.vertex.map(|i| (i + n - k) % n);
        }
        self
    }
    pub fn at(mut self, dx: f64, dy: f64) -> Fam {
        for p in &mut self.v {
            p.0 += dx;
            p.1 += dy;
        }
        self
    }
    /// scale the base shape; f must be exactly representable
    pub fn sc(mut self, f: f64) -> Fam {
        for p in &mut self.v {
            p.0 *= f;
            p.1 *= f;
        }
        self
    }
    pub fn path<T: Dom>(&self, p: &[T]) -> Path<T> {
        let mut v: Vec<Vx<T>> = self
            .v
            .iter()
            .map(|(x, y, b)| (T::d(*x), T::d(*y), T::d(*b)))
            .collect();
        for m in &self.mv {
            for (i, w) in v.iter_mut().enumerate() {
                if m.vertex.is_none() || m.vertex == Some(i) {
                    let add = |a: T, k: f64| {
                        if k == 0.0 {
                            a
                        } else {
                            a + p[m.param] * T::d(k)
                        }
                    };
                    *w = (add(w.0, m.d.0), add(w.1, m.d.1), add(w.2, m.d.2));
                }
            }
        }
        Path {
            v,
            closed: self.closed,
        }
    }
    pub fn pline<T: Dom>(&self, p: &[T]) -> Polyline<T> {
        pline_of(&self.path(p))
    }
}
#[derive(Clone, Debug)]
pub struct Par {
    pub n: &'static str,
    pub lo: f64,
    pub hi: f64,
}
pub fn par(n: &'static str, lo: f64, hi: f64) -> Par {
    Par { n, lo, hi }
}
/// a parameter with a constant value
pub fn fixed(n: &'static str, v: f64) -> Par {
    Par { n, lo: v, hi: v }
}
/// all parameters, constants included
pub fn fill<T: Dom>(pars: &[Par], p: &[T]) -> Vec<T> {
    let mut i = p.iter();
    pars.iter()
        .map(|x| if x.lo < x.hi { *i.next().expect("parameter") } else { T::d(x.lo) })
        .collect()
}
pub fn inputs(p: &[Par]) -> Vec<(&'static str, Q, Q)> {
    p.iter()
        .filter(|x| x.lo < x.hi)
        .map(|x| (x.n, Q::from_f64_decimal(x.lo), Q::from_f64_decimal(x.hi)))
        .collect()
}

// ------------------------------------------------------------------ shapes
pub fn rect(x0: f64, y0: f64, x1: f64, y1: f64) -> Fam {
    closed(&[(x0, y0, 0.), (x1, y0, 0.), (x1, y1, 0.), (x0, y1, 0.)])
}
pub fn circle(cx: f64, cy: f64, r: f64) -> Fam {
    closed(&[(cx - r, cy, 1.), (cx + r, cy, 1.)])
}
/// concave L
pub fn ell() -> Fam {
    closed(&[
        (0., 0., 0.),
        (4., 0., 0.),
        (4., 2., 0.),
        (2., 2., 0.),
        (2., 4., 0.),
        (0., 4., 0.),
    ])
}
/// U-shape
pub fn uu() -> Fam {
    closed(&[
        (0., 0., 0.),
        (6., 0., 0.),
        (6., 5., 0.),
        (4., 5., 0.),
        (4., 2., 0.),
        (2., 2., 0.),
        (2., 5., 0.),
        (0., 5., 0.),
    ])
}
pub fn tri() -> Fam {
    closed(&[(0., 0., 0.), (4., 1., 0.), (1., 3., 0.)])
}
/// stadium: two lines, two half circles
pub fn stadium() -> Fam {
    closed(&[(0., 0., 0.), (4., 0., 1.), (4., 2., 0.), (0., 2., 1.)])
}
/// rounded L: one convex and one concave arc (quarter-ish bulges 0.5 keep centres rational)
pub fn arcy() -> Fam {
    closed(&[
        (0., 0., 0.),
        (4., 0., 0.5),
        (4., 4., 0.),
        (2., 4., -0.5),
        (0., 4., 0.),
    ])
}
/// half disc
pub fn half_disc() -> Fam {
    closed(&[(0., 0., 0.), (4., 0., 1.)])
}
