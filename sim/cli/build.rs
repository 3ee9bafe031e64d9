// Compiles the simulator runtime with gcc, outside the `cc` crate so that the
// CFLAGS used to instrument the code under test don't reach it.
use std::process::Command;

fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let files: &[&str] = if std::path::Path::new("rt/simrt.c").exists() {
        &["rt/simrt.c"]
    } else {
        &["../rt/simrt.c", "../rt/simvfs.c", "../rt/simmem.c"]
    };
    let mut objs = Vec::new();
    for f in files {
        let o = format!("{}/{}.o", out, f.rsplit('/').next().unwrap());
        let ok = Command::new("gcc")
            .args(["-O2", "-g", "-fPIC", "-c", f, "-o", &o])
            .status()
            .expect("gcc")
            .success();
        assert!(ok, "compiling {} failed", f);
        println!("cargo:rerun-if-changed={}", f);
        objs.push(o);
    }
    let dir = if files.len() == 1 { "rt" } else { "../rt" };
    println!("cargo:rerun-if-changed={}/simrt.h", dir);
    let lib = format!("{}/libsimrt.a", out);
    let _ = std::fs::remove_file(&lib);
    assert!(Command::new("ar").arg("crs").arg(&lib).args(&objs).status().expect("ar").success());
    println!("cargo:rustc-link-search=native={}", out);
    println!("cargo:rustc-link-lib=static:+whole-archive=simrt");
    println!("cargo:rustc-link-arg-bins=-Wl,--export-dynamic");
}
