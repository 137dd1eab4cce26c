// Turns the modules main.rs declares into a library, from /repo's own sources.
use std::{env, fs, path::PathBuf};
fn main() {
    println!("cargo:rerun-if-env-changed=SUT_HASH");
    println!("cargo:rerun-if-changed=../../../repo/src");
    println!("cargo:rustc-env=SUT_HASH={}", env::var("SUT_HASH").unwrap_or_default());
    let src = PathBuf::from(env::var("CARGO_MANIFEST_DIR").unwrap()).join("../../../repo/src").canonicalize().unwrap();
    let main = fs::read_to_string(src.join("main.rs")).expect("main.rs");
    let mut out = String::new();
    for l in main.lines() {
        let l = l.trim();
        let l = ["pub(crate) ", "pub "].iter().find_map(|p| l.strip_prefix(p)).unwrap_or(l);
        if let Some(m) = l.strip_prefix("mod ").and_then(|m| m.split("//").next()).and_then(|m| m.trim().strip_suffix(';')) {
            let m = m.trim();
            let f = vec![src.join(m).join("mod.rs"), src.join(format!("{}.rs", m))].into_iter().find(|f| f.exists());
            if let Some(f) = f {
                out += &format!("#[path = {:?}]\npub mod {};\n", f, m);
            }
        }
    }
    fs::write(PathBuf::from(env::var("OUT_DIR").unwrap()).join("mods.rs"), out).unwrap();
}
