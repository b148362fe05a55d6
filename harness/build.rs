// The three shipped binding files, made available as modules of their own.
use std::{env, fs, path::PathBuf};
fn main() {
    let out = PathBuf::from(env::var("OUT_DIR").unwrap());
    let repo = env::var("SUDO_PAIR_REPO").unwrap_or_else(|_| "/repo".into());
    println!("cargo:rerun-if-env-changed=SUDO_PAIR_REPO");
    for (m, f) in [("b_x86_64", "x86-64"), ("b_x86", "x86"), ("b_aarch64", "aarch64")] {
        let p = format!("{}/sudo_plugin-sys/src/bindings/sudo_plugin.{}.rs", repo, f);
        println!("cargo:rerun-if-changed={}", p);
        fs::write(out.join(format!("{}.rs", m)), fs::read(&p).unwrap()).unwrap();
    }
}
