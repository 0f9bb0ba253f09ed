fn main() {
    // fault.rs replaces these functions of the C library; std looks statx up at run time
    println!("cargo:rustc-link-arg=-Wl,--export-dynamic-symbol=statx");
    println!("cargo:rerun-if-changed=build.rs");
}
