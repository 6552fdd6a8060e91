// Rebuild whenever the driver says /repo's sources have changed (their hash), whatever their mtimes.
fn main() {
    println!("cargo:rerun-if-env-changed=VERIF_REPO_HASH");
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rustc-env=VERIF_REPO_HASH={}", std::env::var("VERIF_REPO_HASH").unwrap_or_default());
}
