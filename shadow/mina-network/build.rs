// The backends for the browser are built, too, with the environment of stubs/wasm-bindgen.
fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rustc-cfg=target_arch=\"wasm32\"");
}
