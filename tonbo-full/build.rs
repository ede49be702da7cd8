fn main() {
    // Enables the guarded verification hooks in /repo for this crate only, so that the
    // dependencies keep the flags (and the cached build) of the repository's own build.
    println!("cargo:rustc-cfg=tonbo_verif");
    println!("cargo:rustc-check-cfg=cfg(tonbo_verif)");
    println!("cargo:rerun-if-changed=build.rs");
}
