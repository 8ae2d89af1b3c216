// the run time is compiled without instrumentation
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let st = std::process::Command::new("gcc").args(["-O2", "-fPIC", "-c", "rt.c", "-o", &format!("{out}/rt.o")]).status().unwrap();
    assert!(st.success());
    println!("cargo:rustc-link-arg-bins={out}/rt.o");
    println!("cargo:rerun-if-changed=rt.c");
    println!("cargo:rerun-if-changed=build.rs");
}
