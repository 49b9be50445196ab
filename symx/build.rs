fn main() {
    println!("cargo:rustc-link-lib=gmp");
    println!("cargo:rerun-if-changed=build.rs");
}
