fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed=/repo/bfffs/src");
    let out = std::path::PathBuf::from(std::env::var_os("OUT_DIR").unwrap());
    let src = out.join("grammar");
    let _ = std::fs::create_dir_all(&src);
    std::fs::copy("/repo/bfffs/src/pool_create_parser.lalrpop", src.join("pool_create_parser.lalrpop")).unwrap();
    lalrpop::Configuration::new().set_in_dir(&src).set_out_dir(&out).always_use_colors().force_build(true).process().unwrap();
}
