use std::process::Command;
fn main() {
    let rustc = std::env::var("RUSTC").unwrap_or("rustc".into());
    let out = Command::new(rustc).args(["--print", "sysroot"]).output().unwrap();
    let sysroot = String::from_utf8(out.stdout).unwrap().trim().to_string();
    let lib = format!("{}/lib", sysroot);
    let mut found = None;
    for e in std::fs::read_dir(&lib).unwrap() {
        let n = e.unwrap().file_name().into_string().unwrap();
        if n.starts_with("libLLVM.so.") {
            found = Some(n);
        }
    }
    let f = found.expect("libLLVM.so.* in the toolchain's lib directory");
    println!("cargo:rustc-link-arg={}/{}", lib, f);
    println!("cargo:rustc-link-arg=-Wl,-rpath,{}", lib);
    println!("cargo:rustc-link-arg=/usr/lib/x86_64-linux-gnu/libz3.so");
    println!("cargo:rerun-if-changed=build.rs");
}
