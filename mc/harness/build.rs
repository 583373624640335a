fn main() {
    // MC_STAMP: hash of the checker's runtime and linker script, so that a change relinks
    println!("cargo:rerun-if-env-changed=MC_STAMP");
    println!("cargo:rustc-env=MC_STAMP={}", std::env::var("MC_STAMP").unwrap_or_default());
}
