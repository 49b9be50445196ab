/// fn name [unwind bound] { body }
macro_rules! harnesses {
    ($(#[$m:meta])* $($(@$a:meta,)* fn $n:ident [$u:literal] $b:block)*) => {
        $(
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind($u))]
            $(#[cfg_attr(kani, $a)])*
            pub fn $n() {
                let () = $b;
                reached!(true, "the harness runs to its end");
            }
        )*
        pub const TABLE: &[(&str, fn())] = &[$((stringify!($n), $n as fn())),*];
    };
}
/// assertion
macro_rules! ck {
    ($c:expr, $w:literal) => {
        #[cfg(kani)]
        kani::assert($c, $w);
        #[cfg(not(kani))]
        crate::nd::failed($c, $w);
    };
}
/// the solver has to find values for which this holds (guards against vacuous harnesses)
#[allow(unused_macros)]
macro_rules! reached {
    ($c:expr, $w:literal) => {
        #[cfg(kani)]
        kani::cover!($c, $w);
        #[cfg(not(kani))]
        let _ = ($c, $w);
    };
}
