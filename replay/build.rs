fn main() {
    println!("cargo:rustc-cfg=vf_native");
}
