// The code under test is rebuilt whenever its content changes, whatever the file times say.
fn main() {
    println!("cargo:rerun-if-env-changed=SUT_HASH");
    println!("cargo:rerun-if-changed=../../../repo/src");
    println!("cargo:rustc-env=SUT_HASH={}", std::env::var("SUT_HASH").unwrap_or_default());
}
