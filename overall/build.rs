// an initialiser that sets global settings before main
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let st = std::process::Command::new("gcc").args(["-O2", "-fPIC", "-c", "init.c", "-o", &format!("{out}/init.o")]).status().unwrap();
    assert!(st.success());
    println!("cargo:rustc-link-arg-bins={out}/init.o");
    println!("cargo:rerun-if-changed=init.c");
    println!("cargo:rerun-if-changed=build.rs");
}
