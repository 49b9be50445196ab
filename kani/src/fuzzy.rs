//! C20: fuzzy comparisons, for every finite value of both widths.
use crate::container::{co, tol};
use crate::nd::*;
use cavalier_contours::core::math::*;
use cavalier_contours::core::traits::*;
use cavalier_contours::polyline::PlineVertex;

harnesses! {
    @kani::solver(z3),
    fn c20_eq64 [2] {
        let (a, b, e) = (fin(), fin(), fin());
        let r = a.fuzzy_eq_eps(b, e);
        reached!(r && a != b, "close");
        ck!(r == ((a - b).abs() < e), "equal within the tolerance");
    }
    fn c20_eq32 [2] {
        let (a, b, e) = (fin32(), fin32(), fin32());
        ck!(a.fuzzy_eq_eps(b, e) == ((a - b).abs() < e), "equal within the tolerance");
    }
    fn c20_symmetric32 [2] {
        let (a, b, e) = (fin32(), fin32(), fin32());
        ck!(a.fuzzy_eq_eps(b, e) == b.fuzzy_eq_eps(a, e), "symmetric");
    }
    @kani::solver(z3),
    fn c20_lt64 [2] {
        let (a, b, e) = (fin(), fin(), fin());
        let r = a.fuzzy_lt_eps(b, e);
        reached!(r && a > b, "greater within the tolerance");
        ck!(r == (a < b + e), "less within the tolerance");
    }
    @kani::solver(z3),
    fn c20_gt64 [2] {
        let (a, b, e) = (fin(), fin(), fin());
        ck!(a.fuzzy_gt_eps(b, e) == (a + e > b), "greater within the tolerance");
    }
    @kani::solver(z3),
    fn c20_mirror64 [2] {
        let (a, b, e) = (fin(), fin(), fin());
        ck!(a.fuzzy_lt_eps(b, e) == b.fuzzy_gt_eps(a, e), "less and greater mirror each other");
    }
    fn c20_lt32 [2] {
        let (a, b, e) = (fin32(), fin32(), fin32());
        ck!(a.fuzzy_lt_eps(b, e) == (a < b + e), "less within the tolerance");
        ck!(a.fuzzy_gt_eps(b, e) == (a + e > b), "greater within the tolerance");
    }
    @kani::solver(z3),
    fn c20_range [2] {
        let (a, lo, hi, e) = (fin32(), fin32(), fin32(), fin32());
        ck!(a.fuzzy_in_range_eps(lo, hi, e) == (a + e > lo && a < hi + e), "within the range");
    }
    fn c20_zero [2] {
        let (a, e) = (fin(), fin());
        ck!(a.fuzzy_eq_zero_eps(e) == (a.abs() < e), "zero within the tolerance");
        let (b, f) = (fin32(), fin32());
        ck!(b.fuzzy_eq_zero_eps(f) == (b.abs() < f), "zero within the tolerance");
        ck!(a.fuzzy_eq_zero() == (a.abs() < 1e-8), "default tolerance");
        ck!(b.fuzzy_eq_zero() == (b.abs() < 1e-8), "default tolerance");
        ck!(<f64 as FuzzyEq>::fuzzy_epsilon() == 1e-8 && <f32 as FuzzyEq>::fuzzy_epsilon() == 1e-8, "default tolerance");
    }
    @kani::solver(z3),
    fn c20_zero_form64 [2] {
        let (a, e) = (fin(), fin());
        ck!(a.fuzzy_eq_eps(0., e) == a.fuzzy_eq_zero_eps(e), "the zero form compares with zero");
    }
    @kani::solver(z3),
    fn c20_default64 [2] {
        let (a, b) = (fin(), fin());
        ck!(a.fuzzy_eq(b) == ((a - b).abs() < 1e-8), "default tolerance");
    }
    @kani::solver(z3),
    fn c20_default_ord64 [2] {
        let (a, b) = (fin(), fin());
        ck!(a.fuzzy_lt(b) == (a < b + 1e-8), "default tolerance");
        ck!(a.fuzzy_gt(b) == (a + 1e-8 > b), "default tolerance");
    }
    // coordinates out of a few values, two tolerances
    fn c20_vector [2] {
        let (a, b, c, d, e) = (co(), co(), co(), co(), tol());
        let s = (a - c).abs() < e && (b - d).abs() < e;
        ck!(Vector2::new(a, b).fuzzy_eq_eps(Vector2::new(c, d), e) == s, "vectors are equal when both coordinates are");
        reached!(s && a != c, "close");
    }
    fn c20_vertex [2] {
        let (a, b, c, d, e) = (co(), co(), co(), co(), tol());
        let (g, h) = (co(), co());
        let s = (a - c).abs() < e && (b - d).abs() < e && (g - h).abs() < e;
        ck!(PlineVertex::new(a, b, g).fuzzy_eq_eps(PlineVertex::new(c, d, h), e) == s, "vertexes are equal when coordinates and bulges are");
    }
    fn c20_min_max [2] {
        let (a, b) = (fin(), fin());
        let (l, h) = min_max(a, b);
        ck!(l <= h && ((l == a && h == b) || (l == b && h == a)), "smaller and greater of two");
    }
    fn c20_normalize [2] {
        let a = fin();
        assume(a.abs() < 1e3);
        let r = normalize_radians(a);
        ck!(r > -1e-12 && r < 6.283185307179587, "normalized to one turn");
    }
}
